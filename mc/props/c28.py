"""C28 listings: data types x coordinate types x sizes x custom dimensions are
listed by objects and by streams; all categories and names are listed for all
conventions with every small set of removed entries; the output is parsed and
compared with the content."""
import itertools
import os
import re

from .. import fixture, model, nc, objs, ref
from ..engine import call
from . import c03

PROPERTY = "C28"
TECHNIQUE = ("exhaustive enumeration of contents (data types, coordinate "
             "types, sizes, custom dimensions, removed entries) listed by "
             "the real objects and streams, output compared with the model")

ALL = [(n, v) for (n, v, _) in fixture.SPEC]
TYPES = ["cartesian", "spherical", "spherical harmonics"]
UNITS = {"cartesian": "metre", "spherical": "degree, degree, metre",
         "spherical harmonics": "degree, degree, metre"}
DATATYPES = ["FIR", "FIR-E", "FIRE", "TF", "TF-E", "SOS"]
CUSTOM = [("Mine", ["ramp", [2]], "double", "P"),
          ("Yours", ["ramp", [3, 2]], "double", "qP"),
          ("Words", ["U", ["one", "three"]], "string", "pS"),
          ("Plain", ["n", 4], "double", "I")]
CATEGORIES = ["all", "mandatory", "optional", "read only", "data"]
UNKNOWN = ["", "ALL", "Data", "readonly", "read-only", "mandatory ", "GLOBAL",
           "xyz", "verify", "_convention", "protected", "list_dimensions",
           "Data.IR", "GLOBAL:Title", "SourcePosition_", "ourcePosition",
           "attribute", None, 0, True]
MEANING = {"M": ["measurement"], "S": ["string"], "C": ["coordinate"],
           "I": ["single"]}


def BOUNDS(tier):
    return {"conventions": len(ALL), "coordinate types": TYPES,
            "data types": DATATYPES, "sizes": "1-2 per dimension (thorough "
            "1-3)", "custom entries": "all subsets of %d with %s" % (len(CUSTOM),
            "all sizes" if tier == "thorough" else "the first and last "
            "sizes, one with the other sizes"),
            "categories": CATEGORIES, "unknown categories": len(UNKNOWN),
            "removed optional entries": "all sets of up to %d, and all" % (
                2 if tier == "thorough" else 1)}


def cases(tier):
    out = []
    for c in ALL:
        for pair in itertools.product(TYPES, repeat=2):
            out.append(["dims", c, pair, tier == "thorough"])
        out.append(["info", c, 2 if tier == "thorough" else 1])
    out += [["types", d] for d in DATATYPES]
    out += [["refuse"]]
    return out


def words(text):
    return text.lower()


def meaning_ok(letter, text, dtype, receiver, emitter):
    t = words(text)
    if letter == "N":
        want = ["sample"] if dtype.startswith("FIR") else \
            ["frequenc"] if dtype.startswith("TF") else ["sos", "coeff"]
        not_ = {"sample", "frequenc", "sos"} - set(want)
    elif letter in "RE":
        name, typ = (("receiver", receiver) if letter == "R"
                     else ("emitter", emitter))
        sh = "harmonic" in typ
        want = [name] + (["harmonic"] if sh else [])
        not_ = {"receiver", "emitter"} - {name} | (
            set() if sh else {"harmonic", "coeff"})
    elif letter in MEANING:
        want = MEANING[letter]
        not_ = {"custom", "receiver", "emitter", "sample"}
    else:
        want, not_ = ["custom"], {"measurement", "receiver", "emitter",
                                  "sample", "single", "fixed"}
    return all(w in t for w in want) and not any(w in t for w in not_)


def check_list(ctx, text, dims, dtype, receiver, emitter, info):
    got = {}
    for line in text.splitlines():
        if not line.strip():
            continue
        m = re.match(r"^(\S+) = (\d+) (.*)$", line)
        ctx.require(m is not None, "unexpected line %r" % line, **info)
        letter, size, rest = m.groups()
        ctx.require(letter not in got, "%s is listed twice" % letter, **info)
        got[letter] = int(size)
        rest = rest.split("(set by")[0]
        ctx.require(meaning_ok(letter, rest, dtype, receiver, emitter),
                    "meaning of %s is %r" % (letter, rest), dtype=dtype,
                    receiver=receiver, emitter=emitter, **info)
    ctx.require(got == dims, "listed %s instead of %s" % (got, dims), **info)


def check_object(ctx, obj, conv, custom, info, single=True):
    """Listing and single dimensions of an object."""
    for again in range(2):
        v = ref.verify(ref.entries(obj), conv, custom, "write")
        bad = v.types or v.shapes or v.conflict
        ctx.step(2)
        out = call(getattr, obj, "list_dimensions")
        if bad:
            ctx.require(out.raised(ValueError), "listing with invalid "
                        "shapes or types: %r" % out, **info)
            ctx.outcome("refused")
            continue
        ctx.require(out.ok, "listing raised %r" % out.exc, **info)
        ent = ref.entries(obj)
        check_list(ctx, out.stdout, v.dims, ent["GLOBAL_DataType"],
                   ent["ReceiverPosition_Type"],
                   ent["EmitterPosition_Type"], info)
        for letter in [] if again or not single else list(v.dims) + ["X", "", "m", "MR"]:
            out = call(obj.get_dimension, letter)
            ctx.step()
            if letter in v.dims:
                ctx.require(out.ok and out.value == v.dims[letter],
                            "get_dimension(%r): %r" % (letter, out), **info)
            else:
                ctx.require(out.raised(ValueError), "get_dimension(%r): %r"
                            % (letter, out), **info)
        ctx.outcome("listed")


def check_stream(ctx, path, dims, dtype, receiver, emitter, info):
    ctx.step(2)
    with ctx.sf.SofaStream(path) as s:
        for _ in range(2):
            out = call(getattr, s, "list_dimensions")
            ctx.require(out.ok, "listing of a stream raised %r" % out.exc,
                        **info)
            check_list(ctx, out.stdout, dims, dtype, receiver, emitter, info)
        for letter in list(dims) + ["X", "", "m", "MR"]:
            out = call(s.get_dimension, letter)
            if letter in dims:
                ctx.require(out.ok and out.value == dims[letter],
                            "stream: get_dimension(%r): %r" % (letter, out),
                            **info)
            else:
                ctx.require(out.raised(ValueError), "stream: "
                            "get_dimension(%r): %r" % (letter, out), **info)
    ctx.outcome("stream")


def run(case, ctx):
    if case[0] == "dims":
        dims(ctx, *case[1:])
    elif case[0] == "types":
        types(ctx, case[1])
    elif case[0] == "refuse":
        refuse(ctx)
    else:
        infos(ctx, *case[1:])
    ctx.sample(case)


def dims(ctx, conv_id, types_, large):
    name, version = conv_id
    conv = model.conv_of(name, version)
    rec, em = types_
    settings = []
    for p, t in (("ReceiverPosition", rec), ("EmitterPosition", em)):
        if p + "_Type" in conv:
            settings += [[p + "_Type", ["s", t]], [p + "_Units",
                                                   ["s", UNITS[t]]]]
    space = list(objs.size_space(name, version, not large))
    path = os.path.join(ctx.dir, "dims.sofa")
    for n, sizes in enumerate(space):
        for mask in range(1 << len(CUSTOM)):
            # quick: every size with one subset, first and last with all
            if not large and 0 < n < len(space) - 1 and mask != n % 16:
                continue
            custom = [c for i, c in enumerate(CUSTOM) if mask >> i & 1]
            info = {"convention": conv_id, "types": types_, "sizes": sizes,
                    "custom": [c[0] for c in custom]}
            obj = objs.realise(ctx.sf, {
                "conv": conv_id, "sizes": sizes, "set": settings,
                "custom": custom})
            ctx.trace()
            ctx.state(*info.values())
            check_object(ctx, obj, conv, {c[0]: (c[2], c[3])
                                          for c in custom}, info,
                         large or mask in (0, 15))
        # streams: files made by the netCDF library
        for extra in ([], [["Mine", "f8", "P", 1.0]],
                      [["Mine", "f8", "QP", 1.0],
                       ["Words", "S1", "PS", "word"]]):
            attrs, d, items = c03.build({
                "conv": conv_id, "M": sizes.get("M", 1),
                "N": sizes.get("N", 1), "R": sizes.get("R", 1),
                "E": sizes.get("E", 1), "extra": extra})
            for it in items:
                if it[0] in ("ReceiverPosition", "EmitterPosition"):
                    it[4]["Type"] = rec if it[0][0] == "R" else em
            nc.write(path, attrs, d, items)
            ctx.trace()
            ctx.state("stream", conv_id, types_, sorted(sizes.items()),
                      len(extra))
            check_stream(ctx, path, d, attrs["DataType"], rec, em, {
                "convention": conv_id, "types": types_, "sizes": sizes,
                "extra": extra})
            os.remove(path)


def types(ctx, dtype):
    """Data type replaced in an unprotected object and in a file."""
    path = os.path.join(ctx.dir, "types.sofa")
    for conv_id in (("GeneralFIR", "1.0"), ("GeneralTF", "2.0"),
                    ("GeneralSOS", "1.0"), ("GeneralFIR-E", "2.0")):
        for first in DATATYPES:
            obj, _ = model.fresh(ctx.sf, *conv_id)
            ctx.trace()
            obj.protected = False
            # the meaning follows the current type
            for t in (first, dtype):
                obj.GLOBAL_DataType = t
                ctx.state(conv_id, first, t)
                check_object(ctx, obj, model.conv_of(*conv_id), {}, {
                    "convention": conv_id, "types": [first, t]})
        attrs, d, items = c03.build({"conv": conv_id})
        attrs["DataType"] = dtype
        nc.write(path, attrs, d, items)
        check_stream(ctx, path, d, dtype, *[
            it[4]["Type"] for p in ("ReceiverPosition", "EmitterPosition")
            for it in items if it[0] == p], {"convention": conv_id,
                                             "type": dtype})
        os.remove(path)


def refuse(ctx):
    """Shapes and types that do not define the dimensions."""
    bad = [["Data_IR", ["ramp", [2, 1, 3]]], ["Data_IR", ["s", "text"]],
           ["ListenerPosition", ["ramp", [2, 3]]],
           ["ReceiverPosition", ["ramp", [2, 3]]],
           ["SourcePosition", ["ramp", [1, 2]]],
           ["GLOBAL_Title", ["n", 1]], ["Data_SamplingRate", ["list",
                                                             [1, 2]]],
           ["GLOBAL_Comment", ["s", "fine"]], ["Data_Delay", ["n", 3]]]
    for k in (0, 1, 2):
        for sel in itertools.permutations(bad, k):
            pair = model.Pair(ctx, "GeneralFIR", "1.0")
            for name, val in sel:
                pair.apply(["set", name, val])
                ctx.state(pair.model.key())
                check_object(ctx, pair.obj, pair.model.conv, {},
                             {"set": sel})


def parse(text):
    """{entry: (type, dimensions, mandatory, read only, comment)}"""
    out, last = [], None
    for line in text.splitlines():
        m = re.match(r"^(\S+) : (attribute|double|string)(?: \(([^()]*)\))?, "
                     r"(mandatory|optional)(, read only)?$", line)
        if m:
            last = m.group(1)
            out.append([last, m.group(2), m.group(3),
                        m.group(4) == "mandatory", bool(m.group(5)), ""])
        elif line.startswith("    ") and out:
            out[-1][5] += line.strip()
    return out


def infos(ctx, conv_id, removed):
    conv = model.conv_of(*conv_id)
    optional = [k for k, s in conv.items() if not ref.mandatory(s)]
    sets = [s for k in range(removed + 1)
            for s in itertools.combinations(optional, k)] + [tuple(optional)]
    custom = [["Mine", ["n", 1], "double", "I"],
              ["Words", ["U", ["a", "b"]], "string", "pS"],
              ["Mine_Units", ["s", "u"], "attribute", None],
              ["GLOBAL_Mine", ["s", "g"], "attribute", None]]
    for n, drop in enumerate(sets):
        for add in (custom[:0], custom[:1 + n % 4], custom):
            obj, _ = model.fresh(ctx.sf, *conv_id)
            ctx.trace()
            for k in drop:
                obj.delete(k)
            spec = {k: (s["type"], s["dimensions"], ref.mandatory(s),
                        ref.read_only(s), s["comment"], s["default"])
                    for k, s in conv.items() if k in ref.entries(obj)}
            info = {"convention": conv_id, "removed": drop,
                    "custom": [a[0] for a in add]}
            for nm, val, t, d in add:
                if t == "attribute":
                    call(obj.add_attribute, nm, ref.make(val))
                else:
                    call(obj.add_variable, nm, ref.make(val), t, d)
                spec[nm] = (t, d, False, False, None, None)
            ctx.state(conv_id, drop, len(add))
            check_info(ctx, obj, spec, drop, info, n < 2)


def check_info(ctx, obj, spec, drop, info, names):
    for cat in CATEGORIES:
        ctx.step()
        out = call(obj.info, cat)
        ctx.require(out.ok and out.value is None, "info(%r): %r" % (cat, out),
                    **info)
        want = {k for k, s in spec.items() if
                cat == "all" or (cat == "mandatory" and s[2])
                or (cat == "optional" and not s[2])
                or (cat == "read only" and s[3])
                or (cat == "data" and s[0] != "attribute")}
        got = parse(out.stdout)
        ctx.require(sorted(g[0] for g in got) == sorted(want),
                    "info(%r) lists %s" % (cat, sorted(
                        set(g[0] for g in got) ^ want) or "repeated entries"),
                    **info)
        for k, typ, dim, man, ro, com in got:
            s = spec[k]
            ctx.require((typ, dim, man, ro) == (
                s[0], s[1].upper() if s[1] else None, s[2], s[3]),
                "info(%r) shows %s as %r" % (cat, k, (typ, dim, man, ro)),
                **info)
            ctx.require(s[4] is None or com == s[4],
                        "info(%r) shows the comment %r of %s" % (
                            cat, com, k), **info)
        ctx.outcome("category")
    for key in spec if names else list(spec)[-5:]:
        ctx.step()
        out = call(obj.info, key)
        ctx.require(out.ok and out.value is None, "info(%r): %r" % (key, out),
                    **info)
        blocks, name = {}, None
        for line in out.stdout.splitlines()[2:]:
            if line and not line.startswith(" "):
                name = line
                ctx.require(name not in blocks, "info(%r) shows %s twice" % (
                    key, name), **info)
                blocks[name] = {}
            elif name and line.startswith("    "):
                k, _, v = line.strip().partition(":")
                blocks[name][k] = v.strip()
        ctx.require(key in blocks, "info(%r) does not show it" % key, **info)
        ctx.require(all(key in b for b in blocks), "info(%r) shows %s" % (
            key, list(blocks)), **info)
        for k, b in blocks.items():
            ctx.require(k in spec, "info(%r) shows %s" % (key, k), **info)
            s = spec[k]
            want = {"type": s[0], "mandatory": str(s[2]),
                    "read only": str(s[3]), "shape": str(s[1]).upper()}
            if s[4] is not None:
                want["comment"] = s[4]
                want["default"] = str(s[5]).strip()
            ctx.require({x: b.get(x) for x in want} == want,
                        "info(%r) shows %s as %r" % (key, k, b), **info)
        ctx.outcome("entry")
    for bad in UNKNOWN + list(drop):
        if isinstance(bad, str) and bad in spec:
            continue
        ctx.step()
        out = call(obj.info, bad)
        ctx.require(out.raised(ValueError), "info(%r): %r" % (bad, out),
                    **info)
        ctx.outcome("unknown")
