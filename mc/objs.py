"""Bounded space of valid SOFA objects used by the file related checks.

A case is a JSON description; `realise` turns it into a real object using the
public interface only, together with what the object must contain.
"""
import itertools

import numpy as np

from . import fixture, ref
from .engine import call

CURRENT = [(n, v) for (n, v, d) in fixture.SPEC if not d]
DEPRECATED = [(n, v) for (n, v, d) in fixture.SPEC if d]
# conventions that are named as deprecated can not be written at all
NAMED = set(fixture.DEPRECATIONS["GLOBAL:SOFAConventions"])
WRITABLE = [(n, v) for (n, v, d) in fixture.SPEC if n not in NAMED]

_conv = {}


def conv_of(name, version):
    key = (name, version)
    if key not in _conv:
        for (n, v, _), rows in fixture.SPEC.items():
            if (n, v) == key:
                _conv[key] = ref.convention(rows)
    return _conv[key]


def defining(conv):
    """{dimension letter: [entries]} of a convention."""
    out = {}
    for k, s in conv.items():
        if s["dimensions"] is None:
            continue
        for c in s["dimensions"].split(", ")[0]:
            if ref.is_defining(c):
                out.setdefault(c.upper(), []).append(k)
    return out


def allowed_sizes(name, conv, letter, small):
    """Sizes of a dimension that the rules of the fixture permit."""
    dtype = conv["GLOBAL_DataType"]["default"]
    if letter == "N" and dtype == "SOS":
        return [6] if small else [6, 12]
    if letter == "E":
        if name in ("SimpleFreeFieldHRIR", "SimpleFreeFieldHRTF"):
            return [1]
        if name == "FreeFieldHRIR":
            return [1, 4]
        return [1, 2] if small else [1, 2, 3]
    return [1, 2] if small else [1, 2, 3]


def size_space(name, version, small):
    conv = conv_of(name, version)
    letters = sorted(defining(conv))
    for sizes in itertools.product(*[
            allowed_sizes(name, conv, c, small) for c in letters]):
        yield dict(zip(letters, sizes))


def full_shape(combo, sizes):
    fixed = {"C": 3, "I": 1}
    return tuple(fixed[c] if c in fixed else sizes[c]
                 for c in combo.upper() if c != "S")


def numbers(shape, start, rep):
    """Distinct values; `rep` selects the representation handed in."""
    n = int(np.prod(shape))
    a = (np.arange(n, dtype=float) + start).reshape(shape)
    if rep == "int":
        return a.astype(int)
    if rep == "f4":
        return a.astype("f4")
    a = a + 1 / 3
    if rep == "fortran":
        return np.asfortranarray(a)
    if rep == "half":
        return (np.arange(n) / 4).astype("f2").reshape(shape)
    if rep == "bigend":
        return a.astype(">f8")
    if rep == "unsigned":
        return a.astype("u2")
    if rep == "bigint":
        return a.astype(">i4")
    if rep == "long":
        return a.astype("longdouble").astype(float).astype("longdouble")
    if rep == "strided":
        b = np.full([2 * k + 1 for k in shape], -7.)
        b = b[tuple(slice(1, None, 2) for _ in shape)]
        b[...] = a
        return b
    if rep == "reversed":
        cut = tuple(slice(None, None, -1) for _ in shape)
        return np.array(a[cut])[cut]
    if rep == "transposed":
        return np.ascontiguousarray(a.T).T
    if rep == "missing":
        return np.ma.array(a, mask=(
            (np.arange(n) + start) % 3 == 1).reshape(shape))
    if rep == "readonly":
        a.flags.writeable = False
        return a
    if rep == "constant":
        return np.broadcast_to(a.ravel()[0], shape)
    if rep == "subclass":
        return a.view(np.recarray) if a.ndim == 0 else np.ma.masked_array(a)
    if rep == "list":
        return a.tolist()
    if rep == "trim":
        while a.ndim > 2 and a.shape[-1] == 1:
            a = a[..., 0]
        if a.size == 1:
            return float(a.ravel()[0])
    return a


TEXTS = ["", " ", "a", "two words", " lead", "trail ", "tab\tx", "line\nx",
         "\u00e9t\u00e9", "\u65e5\u672c", "\U0001f50a", "a" * 70, "0",
         "None", "{''}", "quote\"'", "a_b", "\u03a9", "x\u0308"]


def strings(shape, texts, kind="U"):
    n = int(np.prod(shape)) if shape else 1
    flat = [texts[i % len(texts)] for i in range(n)]
    a = np.array(flat, dtype="U").reshape(shape)
    if kind == "S":
        b = [t.encode("utf-8") for t in flat]
        a = np.array(b).reshape(shape)
    return a


def realise(sf, case):
    """Real object of a case (ValueError etc. are not expected)."""
    name, version = case["conv"]
    conv = conv_of(name, version)
    out = call(sf.Sofa, name, version=version, verify=False)
    if out.exc is not None:
        raise out.exc
    obj = out.value
    sizes = case.get("sizes", {})
    rep = case.get("rep", "full")
    texts = case.get("texts", ["one", "three", ""])
    start = 1
    for i, (k, s) in enumerate(conv.items()):
        if k in case.get("drop", ()):
            obj.delete(k)
            continue
        if s["dimensions"] is None or not sizes:
            continue
        combos = s["dimensions"].split(", ")
        pick = case.get("combo", 0)
        combo = combos[(pick if pick != "mix" else i) % len(combos)]
        shape = full_shape(combo, sizes)
        if s["type"] == "string":
            setattr(obj, k, strings(shape, texts, case.get("kind", "U")))
        else:
            if len(combo) == 1:
                shape = (int(np.prod(shape)),)
            setattr(obj, k, numbers(shape, start, rep))
            start += 100
    for add in case.get("custom", ()):
        nm, val, typ, dims = add
        if typ == "attribute":
            obj.add_attribute(nm, ref.make(val))
        else:
            call(obj.add_variable, nm, ref.make(val), typ, dims)
    for nm, val in case.get("set", ()):
        setattr(obj, nm, ref.make(val))
    return obj


def custom_of(case):
    return {a[0]: (a[2], a[3]) for a in case.get("custom", ())}


def content(sf, case):
    """(object, entries, verdict of the reference verifier)"""
    obj = realise(sf, case)
    ent = ref.entries(obj)
    v = ref.verify(ent, conv_of(*case["conv"]), custom_of(case))
    return obj, ent, v


# --------------------------------------------------------------------------
# the bounded space
LAYOUTS = ("half", "bigend", "bigint", "long", "strided", "reversed",
           "transposed", "readonly", "constant", "subclass", "missing",
           "unsigned")
LARGE = [{"M": 4, "R": 4, "N": 4, "E": 1}, {"M": 7, "R": 5, "N": 9, "E": 1},
         {"M": 2, "R": 2, "N": 5000, "E": 1},
         {"M": 300, "R": 2, "N": 64, "E": 1},
         {"M": 3, "R": 40, "N": 100, "E": 1},
         {"M": 1, "R": 1, "N": 70000, "E": 1},
         {"M": 2000, "R": 2, "N": 200, "E": 1}]
LENGTHS = (71, 128, 255, 256, 257, 1000, 5000)
BASE = ["GeneralFIR", "1.0"]
CUSTOM_DOUBLE = [
    ("I", ["n", 0.5]), ("M", ["list", [1.5, 2.5]]),
    ("M", ["arr", [1.5, 2.5]]), ("IC", ["list", [1, 2, 3]]),
    ("MC", ["ramp", [2, 3]]), ("MI", ["ramp", [2, 1]]),
    ("MR", ["ramp", [2, 1]]), ("RM", ["ramp", [1, 2]]),
    ("N", ["ramp", [3]]), ("MN", ["ramp", [2, 3]]),
    ("NM", ["ramp", [3, 2]]), ("MRN", ["ramp", [2, 1, 3]]),
    ("RCM", ["ramp", [1, 3, 2]]), ("MRNE", ["ramp", [2, 1, 3, 1]]),
    ("C", ["list", [7, 8, 9]]), ("II", ["n", -2]),
    ("P", ["list", [1, 2, 3, 4]]), ("P", ["n", 4.5]),
    ("PQ", ["ramp", [2, 4]]), ("MP", ["ramp", [2, 5]]),
    ("PM", ["ramp", [4, 2]]), ("PC", ["ramp", [2, 3]]),
    ("IP", ["ramp", [1, 4]]), ("m", ["list", [3, 4]]),
    ("Mp", ["ramp", [2, 2]]), ("pI", ["ramp", [3, 1]]),
    ("MRNP", ["ramp", [2, 1, 3, 2]]), ("MRNCP", ["ramp", [2, 1, 3, 3, 2]]),
    ("MRNCP", ["ramp", [2, 1, 3, 3]]), ("PQTUV", ["n", 3]),
]
CUSTOM_STRING = [
    ("S", ["s", "text"]), ("IS", ["s", "text"]), ("IS", ["U", ["text"]]),
    ("MS", ["U", ["ab", "c"]]), ("MS", ["U", [["ab"], ["c"]]]),
    ("MRS", ["U", [["ab"], [""]]]), ("NS", ["U", ["a", "bb", "ccc"]]),
    ("PS", ["U", ["p", "qq", "rrr", "ssss"]]),
    ("MPS", ["U", [["a", "b", "c"], ["dd", "e", ""]]]),
    ("IS", ["S", ["byte"]]), ("MS", ["S", ["b1", "b22"]]),
    ("MS", ["U", ["\u00e9", "\u65e5\u672c"]]),
    ("PS", ["S", ["\u00e9", "x"]]),
    ("NPS", ["U", [["a", "b"], ["c", "d"], ["e", ""]]]),
    ("PQTUVS", ["U", ["a"]]), ("MPQTUS", ["U", [[[[["a", "b"]]]]] * 2]),
]
NAMES = ["Data", "M", "S", "P", "I", "Source", "SourcePositionX", "DataX",
         "x", "Type", "data", "\u00dcber", "global", "X1", "Note",
         "Position", "Dat", "a b", "a:b", "1x", "None", "class"]
BITS = ["nan", "inf", "-inf", "-0.0", "0.0", "0x0.0000000000001p-1022",
        "0x1.fffffffffffffp+1023", "-0x1.fffffffffffffp+1023",
        "0x1.5555555555555p-2", "0x1.0000000000001p+0", "1e300", "-1e-300",
        "0x1.921fb54442d18p+1"]


def base_sizes():
    return {"M": 2, "R": 1, "N": 3, "E": 1}


def with_custom(*customs):
    c = []
    for i, (typ, dims, val) in enumerate(customs):
        c.append(["Custom%s" % "XYZ"[i], val, typ, dims])
    return {"conv": BASE, "sizes": base_sizes(), "custom": c}


def space(tier, focus="all"):
    """All cases of the space, grouped for the engine (list of lists)."""
    deep = tier == "thorough"
    cases = []
    # 1 conventions x sizes x dimension combinations x representation
    for conv in WRITABLE:
        reps = ["full", "trim", "list"] + (["int", "f4", "fortran"]
                                           if deep else [])
        for sizes in size_space(conv[0], conv[1], small=False):
            big = sum(s == 3 for s in sizes.values())
            if big > 1 and not deep:
                continue
            for combo in (0, 1, "mix") if deep else (0, "mix"):
                for rep in reps:
                    if not deep and (combo, rep) not in (
                            (0, "full"), ("mix", "trim"),
                            ("mix", "full" if big else "list")):
                        continue
                    cases.append({"conv": list(conv), "sizes": sizes,
                                  "combo": combo, "rep": rep})
        for rep in ("int", "f4", "fortran") + LAYOUTS:
            cases.append({"conv": list(conv), "combo": "mix", "rep": rep,
                          "sizes": list(size_space(*conv, small=True))[-1]})
        cases.append({"conv": list(conv)})
        # each optional entry left out
        spec = conv_of(*conv)
        for k, s in spec.items():
            if not ref.mandatory(s):
                drop = [d for d in spec if not ref.mandatory(spec[d]) and (
                    d == k or d.startswith(k + "_"))]
                if k.endswith("View"):
                    drop.append(k[:-4] + "Up")
                if k == "GLOBAL_EmitterDescription":
                    drop.append("EmitterDescriptions")
                if "_" in k and not k.startswith(("GLOBAL", "Data", "N_")):
                    continue
                cases.append({"conv": list(conv), "drop": drop})
    # 2 custom entries
    custom = [("double", d, v) for d, v in CUSTOM_DOUBLE] + \
        [("string", d, v) for d, v in CUSTOM_STRING]
    for a in custom:
        cases.append(with_custom(a))
        c = with_custom(a)
        c["custom"] += [["CustomX_Units", ["s", "furlong"], "attribute",
                         None],
                        ["CustomX_Note", ["s", "\u65e5"], "attribute", None]]
        cases.append(c)
    few = custom if deep else custom[::2]
    for a, b in itertools.product(few, few):
        if clash(a, b):
            continue
        cases.append(with_custom(a, b))
    # names of custom entries that meet names of the convention, dimensions
    # or keywords
    for nm in NAMES:
        for typ, d, v in (("double", "MC", ["ramp", [2, 3]]),
                          ("double", "I", ["n", 7]),
                          ("string", "MS", ["U", ["ab", "c"]])):
            cases.append({"conv": BASE, "sizes": base_sizes(), "custom": [
                [nm, v, typ, d]]})
            cases.append({"conv": BASE, "sizes": base_sizes(), "custom": [
                [nm, v, typ, d], [nm + "_Note", ["s", "t"], "attribute",
                                  None]]})
    # 3 texts: attributes, scalar strings and arrays of strings
    hp = ["SimpleHeadphoneIR", "1.0"]
    for t in TEXTS:
        cases.append({"conv": BASE, "set": [
            ["GLOBAL_Title", ["s", t]], ["GLOBAL_Comment", ["s", t]]],
            "custom": [["GLOBAL_Mine", ["s", t], "attribute", None],
                       ["Data_IR_Mine", ["s", t], "attribute", None]]})
        cases.append({"conv": BASE, "custom": [
            ["CustomX", ["n", 1], "double", "I"],
            ["CustomX_Note", ["s", t], "attribute", None],
            ["CustomY", ["s", t], "string", "IS"]]})
        cases.append({"conv": hp, "set": [["SourceModel", ["s", t]]]})
        for u in TEXTS if deep else TEXTS[:10:3] + [TEXTS[9]]:
            for kind in "US":
                # trailing NUL/blank semantics of fixed width byte arrays are
                # part of the alphabet
                cases.append({"conv": hp, "kind": kind, "texts": [t, u],
                              "sizes": {"M": 2, "R": 1, "N": 1, "E": 1}})
    # 4 compression
    for level in range(10):
        for conv in (WRITABLE if deep else [BASE, hp]):
            for sizes in list(size_space(conv[0], conv[1], True))[::7]:
                cases.append({"conv": list(conv), "sizes": sizes,
                              "compression": level})
    # 5 special numbers
    for a, b in itertools.product(BITS, BITS):
        cases.append({"conv": BASE, "sizes": {"M": 1, "R": 1, "N": 2, "E": 1},
                      "set": [["Data_IR", ["bits2", [a, b]]]]})
        if deep or a == b:
            cases.append({"conv": BASE, "custom": [
                ["CustomX", ["bits", [a]], "double", "I"],
                ["CustomY", ["bits", [a, b, a]], "double", "C"]]})
    for a in BITS:
        cases.append({"conv": BASE,
                      "set": [["Data_SamplingRate", ["bits", [a]]]]})
    # 6 many values, long texts
    for sizes in LARGE if deep else LARGE[:4]:
        for conv in (BASE, ["GeneralTF", "2.0"]):
            for rep in ("full", "int"):
                cases.append({"conv": conv, "sizes": sizes, "rep": rep})
    for sizes in LARGE[3:]:
        cases.append({"conv": hp, "sizes": sizes})
    for n in LENGTHS:
        t = "".join(chr(97 + i % 26) for i in range(n - 1)) + "\u00e9"
        cases.append({"conv": BASE, "set": [["GLOBAL_Title", ["s", t]]],
                      "custom": [["CustomX", ["s", t], "string", "IS"],
                                 ["CustomX_Note", ["s", t], "attribute",
                                  None]]})
        for kind in "US":
            cases.append({"conv": hp, "kind": kind, "texts": [t, "b", ""],
                          "sizes": {"M": 3, "R": 1, "N": 1, "E": 1}})
        cases.append({"conv": BASE, "custom": [
            ["CustomX", ["U", ["%d" % i for i in range(n)]], "string", "PS"],
            ["CustomY", ["ramp", [n]], "double", "P"]]})
    # 7 attributes that differ from the default
    for conv in WRITABLE:
        cases += changed_attributes(list(conv), deep)
    size = 24
    return [cases[i:i + size] for i in range(0, len(cases), size)]


ATTRIBUTES = {
    "Units": ["meter", "m", "Metres", "degrees, degrees, metre",
              "deg deg m", "Degree,degree,meters", "Hz", "cubic meter",
              "Kelvin", "k", "metre"],
    "Type": ["cartesian", "spherical", "spherical harmonics"],
    "RoomType": ["reverberant", "free field"],
    "DateCreated": ["2001-02-03 04:05:06"],
    "DateModified": ["2001-02-03 04:05:06"]}


def changed_attributes(conv, deep):
    """Valid objects with other attributes than those of the convention."""
    spec = conv_of(*conv)
    base = {k: ref.default_value(s) for k, s in spec.items()}
    out, every = [], []

    def valid(changes):
        e = dict(base, **changes)
        return not ref.verify(e, spec, {}).error("write")
    for k, s in spec.items():
        if s["type"] != "attribute" or ref.read_only(s) or k in (
                "GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion"):
            continue
        last = k.rpartition("_")[2]
        found = None
        for v in ATTRIBUTES.get(last, []) + ["other text \u00e9"]:
            change = {k: v}
            if v != base[k] and not valid(change) and last == "Type":
                change[k[:-4] + "Units"] = "metre" if v == "cartesian" \
                    else "degree, degree, metre"
            if v != base[k] and valid(change):
                out.append(change)
                found = change
        if found and valid({**{a: b for c in every for a, b in c.items()},
                            **found}):
            every.append(found)
    if every:
        out.append({a: b for c in every for a, b in c.items()})
    return [{"conv": conv, "set": [[a, ["s", b]] for a, b in c.items()]}
            for c in out]


def clash(a, b):
    """Two custom entries that define a dimension with different sizes."""
    seen = {}
    for typ, dims, val in (a, b):
        shape = np.shape(ref.make(val))
        for i, c in enumerate(dims.upper()):
            if c in "PQ":
                if typ == "string" and dims.upper() == "PS":
                    n = shape[0]
                elif len(dims) == 1:
                    n = int(np.prod(shape)) if shape else 1
                else:
                    n = shape[i] if i < len(shape) else 1
                if seen.setdefault(c, n) != n:
                    return True
    return False
