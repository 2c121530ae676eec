"""C10 refusals: a refused operation is inserted at every position of every
history of a bounded set; content is compared around the refusal and all later
outputs are compared with the history without it."""
import os

from .. import model, ref
from ..engine import call

PROPERTY = "C10"
TECHNIQUE = ("stateless exhaustive exploration: every refused operation at "
             "every position of all histories up to a depth, compared with "
             "the execution without it")

OBJECTS = [["SimpleFreeFieldHRIR", "1.0", False],
           ["SimpleHeadphoneIR", "1.0", False]]
V = ["s", "changed"]
R = ["list", [[1, 2], [3]]]
REFUSED = [
    ["set", "GLOBAL_Version", V], ["set", "New", ["n", 1]],
    ["set", "SourcePosition", R], ["set", "GLOBAL_Title", R],
    ["set", "Mine", R], ["set", "verify", V],
    ["del", "SourcePosition"], ["delete", "GLOBAL_Title"],
    ["del", "Nothing"],
    ["add", "New", R, "double", "MC"], ["add", "New", R, "string", "MS"],
    ["add", "New", ["n", 1], "float", "I"],
    ["add", "New", ["n", 1], "double", None],
    ["add", "New", ["s", "x"], "string", "I"],
    ["add", "New", ["n", 1], "double", "IS"],
    ["add", "New", ["n", 1], "double", "pS"],
    ["add", "New_Name", ["n", 1], "double", "I"],
    ["add", "SourcePosition", ["n", 1], "double", "I"],
    ["add", "New", R, "attribute", None],
    ["attr", "New", V], ["attr", "New_Units", V],
    ["attr", "GLOBAL_New_Name", V], ["attr", "GLOBAL_New", R],
    ["attr", "GLOBAL_Title", V], ["attr", "SourcePosition_New", R],
    ["add", "verify", ["n", 1], "double", "I"],
    ["dim", "X"], ["dim", "P"], ["dim", "m"], ["dim", "New"],
    ["info", "nothing"], ["info", ""],
    ["verify", "raise", "write"], ["trip"], ["badprot", ["s", "no"]],
    ["badprot", ["n", 0]], ["badprot", ["s", ""]], ["badprot", ["py", "None"]],
    ["delete", "GLOBAL_Comment"],
    ["set", "SourcePosition", ["raises", "TypeError"]],
    ["set", "GLOBAL_Title", ["raises", "RuntimeError"]],
    ["add", "New", ["raises", "TypeError"], "double", "MC"],
    ["add", "New", ["raises", "MemoryError"], "string", "MS"],
    ["add", "New", ["raises", "RuntimeError"], "double", "p"],
    ["attr", "GLOBAL_New", ["raises", "KeyError"]],
    ["attr", "SourcePosition_New", ["raises", "OSError"]],
]
EDITS = [
    ["set", "Data_IR", ["ramp", [2, 2, 3]]],
    ["set", "Data_IR", ["s", "wrong type"]],
    ["set", "ListenerPosition", ["list", [1, 2]]],
    ["set", "GLOBAL_RoomType", ["s", "kitchen"]],
    ["del", "GLOBAL_Comment"],
    ["add", "Mine", ["list", [1, 2, 3]], "double", "P"],
    ["add", "Mine", ["s", "text"], "string", "IS"],
    ["attr", "Mine_Note", V], ["del", "Mine"],
    ["add", "New", ["n", 2], "double", "I"],
    ["attr", "GLOBAL_New", V],
]
AFTER = [
    ["set", "GLOBAL_Title", ["s", "later"]], ["set", "GLOBAL_Version", V],
    ["set", "New", ["n", 5]], ["del", "New"], ["del", "SourcePosition"],
    ["add", "New", ["list", [1, 2]], "double", "M"],
    ["add", "New", ["s", "t"], "string", "IS"], ["attr", "GLOBAL_New", V],
    ["attr", "New_Units", V], ["missing", True, True],
    ["verify", "return", "write"], ["verify", "raise", "read"], ["dim", "M"],
    ["dim", "P"], ["copy"], ["inspect"], ["info", "all"], ["attr", "GLOBAL_Comment", V],
    ["info", "GLOBAL_Comment"], ["info", "New"], ["info", "GLOBAL_New"],
]


def BOUNDS(tier):
    n = 2 if tier == "thorough" else 1
    return {"refused operations": len(REFUSED), "edits before": "0..%d of %d"
            % (2, len(EDITS)), "operations after": "0..%d of %d" % (
                n, len(AFTER)), "objects": len(OBJECTS)}


def cases(tier):
    objs = OBJECTS if tier == "thorough" else OBJECTS[:1]
    out = []
    for o in OBJECTS:
        out += [[o, [], r] for r in range(len(REFUSED))]
        out += [[o, [e], r] for e in range(len(EDITS))
                for r in range(len(REFUSED))]
    for o in objs:
        out += [[o, [e, f], r] for e in range(len(EDITS))
                for f in range(len(EDITS)) for r in range(len(REFUSED))
                if tier == "thorough" or (f >= 5 and e >= 5)
                or (e < 5 and f == 5)]
    return out


def do(ctx, obj, op):
    """One operation on a real object -> (object, comparable result)."""
    ctx.step()
    k = op[0]
    if k == "set":
        out = call(setattr, obj, op[1], ref.make(op[2]))
    elif k == "badprot":
        out = call(setattr, obj, "protected", ref.make(op[1]))
    elif k == "del":
        out = call(delattr, obj, op[1])
    elif k == "delete":
        out = call(obj.delete, op[1])
    elif k == "add":
        out = call(obj.add_variable, op[1], ref.make(op[2]), op[3], op[4])
    elif k == "attr":
        out = call(obj.add_attribute, op[1], ref.make(op[2]))
    elif k == "missing":
        out = call(obj.add_missing, op[1], op[2])
    elif k == "verify":
        out = call(obj.verify, op[1], op[2])
    elif k == "dim":
        out = call(obj.get_dimension, op[1])
    elif k == "copy":
        out = call(obj.copy)
        if out.ok:
            return out.value, out, ("copy",)
    elif k == "inspect":
        out = call(obj.inspect)
    elif k == "info":
        out = call(obj.info, op[1])
    elif k == "trip":
        path = os.path.join(ctx.dir, "x.sofa")
        out = call(ctx.sf.write_sofa, path, obj)
        if os.path.exists(path):
            os.remove(path)
    value = out.value if isinstance(out.value, (str, int, type(None))) \
        else repr(out.value)
    return obj, out, (op, str(value), out.brief())


def image(obj):
    s = ref.snapshot(obj)
    for k in ref_dated:
        s.pop(k, None)
    return tuple(s.items()), bool(obj.protected)


ref_dated = model.DATED


def start(ctx, spec):
    out = call(ctx.sf.Sofa, spec[0], version=spec[1], verify=False)
    if not out.ok:
        raise out.exc
    # time stamps must not make two executions differ
    out.value.GLOBAL_DateCreated = out.value.GLOBAL_DateModified = "date"
    return out.value


def run(case, ctx):
    spec, before, r = case
    refused = REFUSED[r]
    deep = ctx.tier == "thorough" and len(before) < 2
    seqs = [()] + [(i,) for i in range(len(AFTER))]
    # what an entry added later is reported as
    seqs += [(i, j) for i, a in enumerate(AFTER) for j, b in enumerate(AFTER)
             if a[0] in ("add", "attr") and b == ["info", a[1]]]
    if deep:
        seqs += [(i, j) for i in range(len(AFTER))
                 for j in range(len(AFTER))]
    elif len(before) == 2 and ctx.tier != "thorough":
        # all later outputs in two long sequences instead of one by one
        seqs = [tuple(range(len(AFTER)))]
    for seq in seqs:
        runs = []
        for insert in (True, False):
            ctx.trace()
            obj = start(ctx, spec)
            for e in before:
                obj, _, _ = do(ctx, obj, EDITS[e])
            log = []
            if insert:
                prior = image(obj)
                obj, out, _ = do(ctx, obj, refused)
                if out.ok:
                    ctx.outcome("accepted")
                    return        # not refused in this state
                ctx.outcome("refused")
                ctx.require(
                    image(obj) == prior, "refused %s changed the object: %s"
                    % (refused, ref.diff(dict(prior[0]),
                                         dict(image(obj)[0]))),
                    before=[EDITS[e] for e in before],
                    protection=[prior[1], image(obj)[1]])
            for a in seq:
                obj, _, res = do(ctx, obj, AFTER[a])
                log.append(res)
            log.append(image(obj))
            for how in (("verify", "return", "write"), ("dim", "M")):
                log.append(do(ctx, obj, list(how))[2])
            log.append(image(obj))
            runs.append(log)
        ctx.state(spec, before, runs[0][-1])
        for a, b in zip(*runs):
            ctx.require(a == b, "later behaviour depends on the refused %s"
                        % refused, before=[EDITS[e] for e in before],
                        after=[AFTER[i] for i in seq],
                        with_refusal=repr(a)[:600],
                        without=repr(b)[:600])
    ctx.sample([[EDITS[e] for e in before], refused])
