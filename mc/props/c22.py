"""C22 comparison: all pairs of values of an alphabet per entry type, all
pairs of small edits (deleted, added, reordered entries), all pairs of
conventions; each pair compared in both orders, with every exclusion and
verbosity, by the real function and by an independent definition."""
import itertools
import os

import numpy as np

from . import c03
from .. import fixture, model, nc, ref
from ..engine import call

PROPERTY = "C22"
TECHNIQUE = ("exhaustive enumeration of pairs of objects x exclusion x "
             "verbosity x order on the real comparison against an "
             "independent equality")

NUMBERS = [["n", 1], ["n", 1.0], ["n", 1 + 1e-9], ["n", 1 + 1e-5], ["n", 2],
           ["n", -1], ["n", 0], ["n", -0.0], ["n", 1e300], ["n", 1e-3],
           ["n", 1e-9], ["n", 2e-9], ["n", -1e-9], ["n", 1e-30],
           ["list", [1e6, 1e-9]], ["list", [1e6, 3e-9]],
           ["bits2", ["nan"]], ["bits2", ["inf"]], ["bits2", ["-inf"]],
           ["arr", [[1.0]], "f4"], ["arr", 1, "i8"],
           ["list", [1, 2]], ["arr", [1, 2], "f8"], ["arr", [[1], [2]], "i4"],
           ["arr", [[[1.0, 2.0]]], "f8"], ["list", [2, 1]],
           ["list", [1, 2, 3]], ["list", [1, 1]],
           ["list", [[1, 2], [3, 4]]], ["list", [[1, 3], [2, 4]]],
           ["list", [[1, 2, 3, 4]]], ["list", [[1, 2], [3, 4 + 1e-9]]],
           ["list", [[1, 2], [3, 5]]], ["bits2", ["1.0", "nan"]],
           ["bits2", ["nan", "1.0"]], ["bits2", ["1.0", "2.0"]],
           ["ramp", [2, 1, 2]], ["ramp", [1, 2, 2]], ["ramp", [4, 1]],
           ["ramp", [2, 3, 2]], ["ramp", [3, 2, 2]], ["ramp", [2, 3, 2, 1]],
           ["masked", [[1.0, 2.0]], [[0, 1]]],
           ["masked", [[1.0, 3.0]], [[0, 1]]],
           ["masked", [[1.0, 2.0]], [[1, 0]]],
           ["masked", [[2.0, 2.0]], [[0, 1]]],
           ["masked", [[1.0, 2.0]], [[0, 0]]],
           ["masked", [[1.0, 2.0]], [[1, 1]]],
           ["masked", [1.0], [1]], ["masked", [1.0], [0]],
           ["masked", 1.0, True], ["masked", [[[1.0, 2.0]]], [[[0, 1]]]]]
TEXTS = [["s", ""], ["s", "a"], ["s", "A"], ["s", "a "], ["s", "b"],
         ["s", "\u00e9"], ["s", "e\u0301"], ["s", "1"], ["s", "None"]]
STRINGS = TEXTS + [
    ["U", ["a"]], ["S", ["a"]], ["U", [["a"]]], ["U", [""]], ["S", [""]],
    ["U", ["a", "b"]], ["S", ["a", "b"]], ["U", [["a", "b"]]],
    ["U", [["a"], ["b"]]], ["U", ["b", "a"]], ["U", ["a", "b", "c"]],
    ["U", ["a", "bb"]], ["U", ["a", "b "]], ["U", [["a", "b"], ["c", "d"]]],
    ["U", [["a", "c"], ["b", "d"]]], ["U", ["a", "b", "c", "d"]],
    ["U", ["\u00e9", "b"]], ["S", ["\u00e9", "b"]], ["list", ["a", "b"]],
    ["U", "a"]]
EXCLUDE = [None, "GLOBAL", "DATE", "ATTR"]
SPELL = ["global", "Date", "attr", "Global"]
BAD = ["", "NAME", "GLOBAL_", "DATES", "ATTRIBUTE", " ATTR"]
# (entry, type, alphabet); None: entry of the convention
ENTRIES = [
    ("Data_IR", "double", None), ("Data_SamplingRate", "double", None),
    ("Mine", "double", "I"), ("MineDate", "double", "MN"),
    ("Words", "string", "MS"), ("Dated", "string", "IJS"),
    ("GLOBAL_Title", "attribute", None),
    ("GLOBAL_DateCreated", "attribute", None),
    ("GLOBAL_Mine", "attribute", None),
    ("ListenerPosition_Units", "attribute", None),
    ("ListenerPosition_Date", "attribute", None)]
# contents of an entry of a file: attribute or variable of the same name
KINDS = [["attribute", "a"], ["attribute", "1"], ["attribute", ""],
         ["attribute", "[1.]"], ["attribute", "['a']"],
         ["string", ["a"]], ["string", ["1"]], ["string", [""]],
         ["string", ["a", "b"]], ["string", ["1", "1"]],
         ["double", [1.0]], ["double", [0.0]], ["double", [1.0, 1.0]]]
# edits for entry sets
EDITS = {
    "nothing": [], "no comment": [("del", "GLOBAL_Comment")],
    "no history": [("del", "GLOBAL_History")],
    "no position": [("del", "SourcePosition")],
    "no units": [("del", "SourcePosition_Units")],
    "no date": [("del", "GLOBAL_DateModified")],
    "number": [("add", "New", 1, "double", "I")],
    "number 2": [("add", "New", 2, "double", "I")],
    "number dims": [("add", "New", 1, "double", "M")],
    "word": [("add", "New", "1", "string", "IS")],
    "other number": [("add", "Newer", 1, "double", "I")],
    "global": [("add", "GLOBAL_New", "1", "attribute", None)],
    "attribute": [("add", "Data_New", "1", "attribute", None),
                  ][:0] + [("add", "SourcePosition_New", "1", "attribute",
                            None)],
    "date": [("add", "NewDate", 1, "double", "I")],
    "date 2": [("add", "NewDate", 2, "double", "I")],
    "date text": [("add", "GLOBAL_Date", "1", "attribute", None)],
    "date lower": [("add", "Validated", 1, "double", "I")],
    "again": [("add", "New", "1", "string", "IS"), ("del", "New"),
              ("add", "New", 1, "double", "I")],
    "order": [("del", "GLOBAL_Comment"),
              ("add", "GLOBAL_Comment", "", "attribute", None)],
    "value": [("set", "GLOBAL_Comment", "x")],
    "position": [("set", "SourcePosition", [[1, 0, 0]])],
}


def alphabet(typ):
    return {"double": NUMBERS, "string": STRINGS, "attribute": TEXTS}[typ]


def BOUNDS(tier):
    return {"numbers": len(NUMBERS), "texts": len(STRINGS),
            "attributes": len(TEXTS), "entries": len(ENTRIES),
            "edits": len(EDITS), "edits per object": 2,
            "pairs of conventions": len(fixture.SPEC) ** 2,
            "large contents": MANY, "exclusions": EXCLUDE + SPELL + BAD}


def cases(tier):
    out = [["values", i, j] for i, (_, t, _) in enumerate(ENTRIES)
           for j in range(len(alphabet(t)))]
    out += [["edits", a, b] for a in EDITS for b in EDITS]
    out += [["conv", n, v] for (n, v, _) in fixture.SPEC]
    out += [["kinds", i] for i in range(len(KINDS))]
    out += [["one", n, v] for (n, v, _) in fixture.SPEC]
    out += [["bad"]]
    out += [["many", kind, n] for kind in ("double", "string", "long",
                                           "attribute") for n in MANY]
    return out


MANY = (1001, 5000, 70000)


def many(ctx, kind, n):
    """Large contents that differ in one place."""
    entry = {"double": ["Mine", "double", "PQR"],
             "string": ["Words", "string", "PQS"],
             "long": ["Words", "string", "PS"],
             "attribute": ["GLOBAL_Mine", "attribute", None]}[kind]

    def content(at=None, what=1):
        if kind == "double":
            v = np.arange(float(n))
            if at is not None:
                v[at] += what
            return v.reshape((1, -1, 1) if n % 2 else (2, -1, 5))
        if kind == "string":
            v = np.array(["w%d" % (i % 7) for i in range(n)])
            if at is not None:
                v[at] = "x"
            return v.reshape((-1, 1) if n % 2 else (2, -1))
        v = "abc" * (n // 3) + "z"
        if at is not None:
            at = min(at, len(v) - 1)
            v = v[:at] + "?" + v[at + 1:]
        return v if kind == "attribute" else np.array([v, "short"])

    def make_object(v):
        obj = fresh(ctx, "GeneralFIR", "1.0", True)
        call(obj.add_variable, entry[0], v, entry[1], entry[2]) \
            if kind != "attribute" else call(obj.add_attribute, entry[0], v)
        ctx.require(hasattr(obj, entry[0]), "entry was not added")
        return obj, types(obj, {entry[0]: entry[1]})
    a, ta = make_object(content())
    compare(ctx, a, a.copy(), ta, ta, {"many": [kind, n]}, [None])
    for at in sorted({0, 1, 2, 3, 4, 127, 500, n // 2, 999, 1000, n - 5,
                      n - 4, n - 3, n - 2, n - 1}):
        b, tb = make_object(content(at))
        ctx.state(kind, n, at)
        compare(ctx, a, b, ta, tb, {"many": [kind, n], "differs": at},
                [None])


def one(ctx, n, v):
    """Every entry of the convention different, and nothing else."""
    a = fresh(ctx, n, v)
    ta = types(a, {})
    for key in ref.entries(a):
        if key in ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion"):
            continue            # the type of the other entries is up to them
        b = fresh(ctx, n, v)
        b.protected = False
        old = getattr(b, key)
        if isinstance(old, str):
            new = old + "x"
        elif ta[key] == "string":
            new = np.array(old).astype(object) + "x"
            new = new.astype(str)
        else:
            new = np.array(old, dtype=float) + 1
        setattr(b, key, new)
        b.protected = True
        ctx.state("one", n, v, key)
        compare(ctx, a, b, ta, types(b, {}), {"only": [n, v, key]})


def make(v):
    if v[0] == "masked":
        return np.ma.masked if v[1:] == [1.0, True] else \
            np.ma.MaskedArray(v[1], mask=v[2])
    return ref.make(v)


def same(a, b, typ):
    if typ == "attribute":
        return a == b
    if typ == "string":
        x, y = [[t.decode("utf-8") if isinstance(t, bytes) else str(t)
                 for t in np.ravel(v).tolist()] for v in (a, b)]
        return x == y and shape(a) == shape(b)
    if shape(a) != shape(b):
        return False
    for x, y in zip(numbers(a), numbers(b)):
        if x is None or y is None:                  # missing data
            if x is not y:
                return False
            continue
        if x == y or (np.isnan(x) and np.isnan(y)):
            continue
        if np.isnan(x) or np.isnan(y) or np.isinf(x) or np.isinf(y):
            return False
        if abs(x - y) > 1e-7 * max(abs(x), abs(y)):
            return False
    return True


def numbers(v):
    """Numbers in the order of the array, None if they are missing."""
    return [None if m else float(x) for x, m in zip(
        np.ma.getdata(v).ravel(), np.ma.getmaskarray(v).ravel())]


def shape(v):
    return tuple(n for n in np.shape(v) if n != 1)


def equal(ea, ta, eb, tb, exclude):
    """Independent definition on entries and their types."""
    def kept(ent, types):
        if exclude is None:
            return set(ent)
        e = exclude.upper()
        return {k for k in ent if not (
            (e == "GLOBAL" and k.startswith("GLOBAL_"))
            or (e == "DATE" and "Date" in k)
            or (e == "ATTR" and types[k] == "attribute"))}
    ka, kb = kept(ea, ta), kept(eb, tb)
    return ka == kb and all(
        ta[k] == tb[k] and same(ea[k], eb[k], ta[k]) for k in ka)


def types(obj, custom):
    ent = ref.entries(obj)
    conv = model.conv_of(ent["GLOBAL_SOFAConventions"],
                         ent["GLOBAL_SOFAConventionsVersion"])
    return {k: conv[k]["type"] if k in conv else custom[k] for k in ent}


def compare(ctx, a, b, ta, tb, info, excludes=EXCLUDE):
    ea, eb = ref.entries(a), ref.entries(b)
    before = ref.snapshot(a), ref.snapshot(b)
    order = list(ea), list(eb)
    for exclude in excludes:
        want = equal(ea, ta, eb, tb, exclude)
        for x, y in ((a, b), (b, a)):
            for verbose in (True, False):
                ctx.step()
                out = call(ctx.sf.equals, x, y, verbose, exclude)
                args = dict(info, exclude=exclude, verbose=verbose,
                            swapped=x is b)
                ctx.require(out.ok, "equals raised %r" % out.exc, **args)
                ctx.require(bool(out.value) == want, "equals is %r instead "
                            "of %r" % (out.value, want), **args)
                said = bool(out.warnings) or out.stdout.strip() != ""
                ctx.require(said == (verbose and not want),
                            "equals reports %r %r" % (
                                out.warnings, out.stdout), **args)
        ctx.outcome("equal" if want else "different")
    ctx.require((ref.snapshot(a), ref.snapshot(b)) == before
                and (list(ref.entries(a)), list(ref.entries(b))) == order,
                "equals changed an object", **info)


def fresh(ctx, name, version, mandatory=False):
    obj, _ = model.fresh(ctx.sf, name, version, mandatory)
    obj.protected = False
    for k in model.DATED:
        if hasattr(obj, k):
            setattr(obj, k, "fixed")
    obj.protected = True
    ctx.trace()
    return obj


def with_value(ctx, entry, v):
    name, typ, dims = entry
    obj = fresh(ctx, "GeneralFIR", "1.0", True)
    custom = {}
    if hasattr(obj, name):
        obj.protected = False
        setattr(obj, name, make(v))
        obj.protected = True
    else:
        out = call(obj.add_variable, name, make(v), typ, dims) \
            if typ != "attribute" else call(obj.add_attribute, name, make(v))
        if not out.ok:
            raise out.exc
        custom[name] = typ
    return obj, types(obj, custom)


def from_file(ctx, kind, value):
    """Object read from a file in which the entry Mine_X is an attribute or
    a variable."""
    attrs, dims, items = c03.build({"conv": ["GeneralFIR", "1.0"], "M": 2})
    n = len(value) if kind != "attribute" else 1
    attributes = {"X": value} if kind == "attribute" else {}
    items.append(["Mine", "f8", "I", np.ones(1), attributes, None])
    if kind == "double":
        items.append(["Mine_X", "f8", "IM"[n - 1], np.array(value), {}, None])
    if kind == "string":
        items.append(["Mine_X", "S1", "IM"[n - 1] + "S", nc.chars(
            value, [n], dims["S"]), {}, None])
    path = os.path.join(ctx.dir, "kind.sofa")
    nc.write(path, attrs, dims, items)
    out = call(ctx.sf.read_sofa, path, verify=False, verbose=False)
    os.remove(path)
    ctx.require(out.ok, "reading raised %r" % out.exc, kind=kind, value=value)
    return out.value, types(out.value, {"Mine": "double", "Mine_X": kind})


def run(case, ctx):
    if case[0] == "kinds":
        a, ta = from_file(ctx, *KINDS[case[1]])
        for kind in KINDS[case[1]:]:
            b, tb = from_file(ctx, *kind)
            ctx.state("kinds", KINDS[case[1]], kind)
            compare(ctx, a, b, ta, tb, {"kinds": [KINDS[case[1]], kind]})
        ctx.sample(case)
        return
    if case[0] == "many":
        many(ctx, *case[1:])
    elif case[0] == "values":
        entry = ENTRIES[case[1]]
        al = alphabet(entry[1])
        v = al[case[2]]
        a, ta = with_value(ctx, entry, v)
        compare(ctx, a, a, ta, ta, {"itself": [entry[0], v]})
        compare(ctx, a, a.copy(), ta, ta, {"copy of": [entry[0], v]})
        compare(ctx, a, with_value(ctx, entry, v)[0], ta, ta,
                {"twice": [entry[0], v]}, excludes=EXCLUDE + SPELL)
        for w in al[case[2] + 1:]:
            b, tb = with_value(ctx, entry, w)
            ctx.state(entry[0], v, w)
            compare(ctx, a, b, ta, tb, {"entry": entry[0], "values": [v, w]})
    elif case[0] == "edits":
        _, first, second = case
        objs = []
        for combo in ([first], [second], [first, second], [second, first]):
            o, custom = fresh(ctx, "GeneralFIR", "1.0"), {}
            for e in combo:
                for op in EDITS[e]:
                    o.protected = False
                    if op[0] == "del":
                        call(o.delete, op[1])
                        custom.pop(op[1], None)
                    elif op[0] == "set" and hasattr(o, op[1]):
                        setattr(o, op[1], op[2])
                    elif op[0] == "add" and call(
                            o.add_variable, *op[1:]).ok:
                        custom[op[1]] = op[3]
                    o.protected = True
            objs.append((o, types(o, custom), combo))
        for (a, ta, ca), (b, tb, cb) in itertools.combinations(objs, 2):
            ctx.state(ca, cb)
            compare(ctx, a, b, ta, tb, {"edits": [ca, cb]})
    elif case[0] == "one":
        one(ctx, *case[1:])
    elif case[0] == "conv":
        _, n, v = case
        a = fresh(ctx, n, v)
        path = os.path.join(ctx.dir, "equal.sofa")
        if call(ctx.sf.write_sofa, path, a).ok:
            b = call(ctx.sf.read_sofa, path, verbose=False).value
            os.remove(path)
            compare(ctx, a, b, types(a, {}), types(b, {}),
                    {"saved and read": [n, v]})
        for (m, w, _) in fixture.SPEC:
            b = fresh(ctx, m, w)
            for x, y in ((a, b), (fresh(ctx, n, v, True), b)):
                ctx.state(n, v, m, w, x is a)
                compare(ctx, x, y, types(x, {}), types(y, {}),
                        {"conventions": [[n, v], [m, w]]})
    else:
        a = fresh(ctx, "GeneralFIR", "1.0")
        b = fresh(ctx, "GeneralFIR", "1.0")
        for x, y in ((a, b), (a, a), (a, fresh(ctx, "GeneralTF", "2.0"))):
            for e in BAD:
                for verbose in (True, False):
                    ctx.step()
                    ctx.state(e, verbose)
                    out = call(ctx.sf.equals, x, y, verbose, e)
                    ctx.require(out.raised(ValueError),
                                "equals(exclude=%r): %r" % (e, out))
                    ctx.outcome("refused")
    ctx.sample(case)
