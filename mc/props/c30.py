"""C30 no memory: all histories of public operations up to a depth; the object
at the end of each is compared with a newly created object that was given the
same entries (verification in both modes, dimensions, saved file)."""
import os
import re

import numpy as np

from .. import model, ref
from ..engine import call

PROPERTY = "C30"
TECHNIQUE = ("stateless exhaustive exploration of all operation histories up "
             "to a depth on the real object, each result compared with a "
             "newly built real object of the same content")

OBJECTS = [["GeneralFIR", "1.0", False], ["SimpleHeadphoneIR", "1.0", False],
           ["GeneralTF", "2.0", True], ["SimpleFreeFieldHRIR", "0.4", False]]
OPS = [
    # edits that define dimensions, valid and not
    ["set", "Data_IR", ["ramp", [2, 1, 4]]],
    ["set", "Data_IR", ["ramp", [1, 1, 3]]],
    ["set", "ListenerPosition", ["ramp", [2, 3]]],
    ["set", "ListenerPosition", ["list", [[0, 0, 0]]]],
    ["set", "SourcePosition", ["ramp", [1, 4]]],
    ["set", "SourcePosition", ["list", [[0, 0, 1]]]],
    ["set", "Data_SamplingRate", ["s", "wrong"]],
    ["set", "Data_SamplingRate", ["n", 44100]],
    ["set", "GLOBAL_RoomType", ["s", "shoebox"]],
    ["set", "GLOBAL_RoomType", ["s", "free field"]],
    ["set", "GLOBAL_Title", ["s", "caf\u00e9"]],
    ["set", "SourcePosition_Units", ["s", "furlong"]],
    ["set", "SourcePosition_Units", ["s", "degree, degree, metre"]],
    # arrays changed in place
    ["inplace", "Data_IR", "shape"], ["inplace", "ListenerPosition", "shape"],
    ["inplace", "SourcePosition", "values"], ["inplace", "Mine", "values"],
    ["inplace", "Mine", "shape"],
    # entries that come and go
    ["del", "GLOBAL_Comment"], ["del", "SourceManufacturer"],
    ["del", "GLOBAL_Title"],
    ["add", "Mine", ["ramp", [2]], "double", "P"],
    ["add", "Mine", ["ramp", [3, 2]], "double", "PQ"],
    ["add", "Mine", ["U", ["\u00e9t\u00e9", "b"]], "string", "PS"],
    ["attr", "Mine_Units", ["s", "metre"]],
    ["attr", "GLOBAL_Mine", ["s", "mine"]],
    ["set", "Mine", ["n", 5]], ["set", "Mine", ["s", "text"]],
    ["del", "Mine"], ["del", "Mine_Units"], ["del", "GLOBAL_Mine"],
    ["set", "SourceManufacturer", ["U", ["a longer name"]]],
    # operations that should leave no trace
    ["prot", False], ["prot", True],
    ["verify", "raise", "write"], ["verify", "raise", "read"],
    ["verify", "return", "write"], ["verify", "ignore", "read"],
    ["verify", "print", "read"], ["missing", True, True],
    ["missing", True, False], ["missing", False, False],
    ["dim", "M"], ["dim", "P"], ["copy"], ["trip"], ["inspect"],
    ["info", "all"], ["upgrade", None],
]
DEEP = [i for i, op in enumerate(OPS) if op in (
    ["set", "Data_IR", ["ramp", [2, 1, 4]]],
    ["set", "ListenerPosition", ["ramp", [2, 3]]],
    ["set", "SourcePosition", ["ramp", [1, 4]]],
    ["set", "SourcePosition", ["list", [[0, 0, 1]]]],
    ["add", "Mine", ["ramp", [2]], "double", "P"],
    ["add", "Mine", ["U", ["\u00e9t\u00e9", "b"]], "string", "PS"], ["del", "Mine"], ["prot", False],
    ["verify", "raise", "write"], ["verify", "return", "read"],
    ["inplace", "Data_IR", "shape"], ["inplace", "Mine", "values"],
    ["copy"], ["trip"], ["dim", "M"], ["del", "GLOBAL_Title"])]


def BOUNDS(tier):
    return {"operations": len(OPS), "objects": OBJECTS,
            "depth, all operations": 3 if tier == "thorough" else
            "2 (first two objects), 1 (others)",
            "operations explored deeper": len(DEEP),
            "depth of these": 4 if tier == "thorough" else 3}


def cases(tier):
    out = []
    for o in OBJECTS:
        if tier == "thorough":
            out += [[o, [i, j], 3, "all"] for i in range(len(OPS))
                    for j in range(len(OPS))]
        else:
            out += [[o, [i], 2 if o in OBJECTS[:2] else 1, "all"]
                    for i in range(len(OPS))]
    if tier == "thorough":
        for o in OBJECTS[:2]:
            out += [[o, [i, j, k], 4, "deep"] for i in DEEP for j in DEEP
                    for k in DEEP]
    else:
        out += [[OBJECTS[0], [i, j], 3, "deep"] for i in DEEP for j in DEEP]
    return out


def enabled(m, op):
    if op[0] == "set" and op[1] not in m.ent and not m.protected:
        return False
    return True


def fresh(ctx, oid, ent, custom, protected):
    """New object with these entries and custom entries."""
    obj = call(ctx.sf.Sofa, oid[0], version=oid[1], verify=False).value
    obj.protected = False
    for k in list(ref.entries(obj)):
        if k not in ent:
            obj.delete(k)
    obj.protected = False
    for k in sorted(ent, key=lambda k: (k.count("_"), k)):
        if k in custom:
            typ, dims = custom[k]
            val = ent[k]
            if typ == "attribute":
                add = [obj.add_attribute, k]
                call(*add, val if isinstance(val, str) else "x")
            else:
                call(obj.add_variable, k, val, typ, dims)
            obj.protected = False
        setattr(obj, k, ent[k])
    obj.protected = protected
    return obj


def sort(text):
    return sorted(re.split(r"[\s,]+", text or ""))


def observe(ctx, obj, path):
    """Everything the property speaks about."""
    out = []
    # before the object is verified
    first = obj.copy()
    for c in "PM":
        d = call(first.get_dimension, c)
        out.append(("dimension", c, d.value, type(d.exc).__name__))
    first = obj.copy()
    r = call(first.inspect, issue_handling="return")
    out.append(("inspect", sort(r.stdout), type(r.exc).__name__))
    for mode in ("write", "read"):
        r = call(obj.verify, "raise", mode)
        out.append(("verify", mode, None if r.ok else (
            type(r.exc).__name__, sort(str(r.exc))),
            sorted(r.warnings), sort(r.stdout)))
    w = call(ctx.sf.write_sofa, path, obj)
    out.append(("write", None if w.ok else (type(w.exc).__name__, sort(str(
        w.exc))), model.file_dump(path) if w.ok else None))
    if os.path.exists(path):
        os.remove(path)
    r = call(obj.verify, "return", "write")
    out.append(("return", sort(r.value) if isinstance(r.value, str)
                else r.value, repr(r.exc)))
    for c in "MPX":
        d = call(obj.get_dimension, c)
        out.append(("dimension", c, d.value, type(d.exc).__name__))
    d = call(getattr, obj, "list_dimensions")
    out.append(("listed", sort(re.sub(r"\(set by.*\)", "", d.stdout)),
                type(d.exc).__name__))
    out.append(("content", ref.snapshot(obj)))
    ctx.step(12)
    return out


cache = {}


def compare(ctx, pair):
    """Continue with a copy of the history so it is not disturbed."""
    obj = pair.obj
    ent = {k: (v.copy() if isinstance(v, np.ndarray) else v)
           for k, v in ref.entries(obj).items()}
    protected = bool(obj.protected)
    path = os.path.join(ctx.dir, "c30.sofa")
    dated = tuple(sorted((k, ent[k]) for k in ent if model.dated(k)))
    key = (pair.model.key(), protected, dated, tuple(sorted(
        (k, ref.canon(v)) for k, v in ent.items())))
    if key not in cache:
        cache.clear() if len(cache) > 300 else None
        new = fresh(ctx, pair.model.id, ent, pair.model.custom, protected)
        got = ref.snapshot(new)
        want = {k: ref.canon(v) for k, v in ent.items()}
        ctx.require(got == want, "a new object can not be given the same "
                    "entries: %s" % ref.diff(want, got),
                    history=pair.history)
        cache[key] = observe(ctx, new, path)
        ctx.outcome("contents")
    want = cache[key]
    got = observe(ctx, obj, path)
    for a, b in zip(want, got):
        if a != b:
            what = ref.diff(a[-1], b[-1]) if isinstance(a[-1], dict) and \
                isinstance(b[-1], dict) else "%s / %s" % (a[1:], b[1:])
            pair.fail("%s differs from that of a new object with the same "
                      "entries (new / this): %s" % (a[0], what))
    ctx.outcome("histories ending with a valid object"
                if got[0][2] is None else "histories ending with an invalid "
                "object")


def run(case, ctx):
    oid, prefix, depth, which = case
    names = model.conv_of(*oid[:2])
    ops = DEEP if which == "deep" else range(len(OPS))

    def make():
        return model.Pair(ctx, *oid)

    def ok(m, op):
        if op[0] in ("set", "del") and op[1] not in names \
                and op[1] not in m.ent and op[1].startswith(("Source",
                                                             "Data")):
            return False
        return enabled(m, op)

    def check(pair, out, expected):
        pair.model.protected = bool(pair.obj.protected)
        compare(ctx, pair)

    model.explore(ctx, make, OPS, prefix, depth, ok, check, ops)
    ctx.sample([OPS[i] for i in prefix])
