"""C21 ways to verify: objects with every combination of up to two (thorough:
three) defects, all sequences of verifications in all ways and modes up to a
depth; verdict and named entries of each way are compared with the reference
verifier applied to the content at that moment, the entries with the content
before."""
import itertools

from .. import fixture, model, ref
from ..engine import call
from . import c04

PROPERTY = "C21"
TECHNIQUE = ("exhaustive enumeration of defect combinations x sequences of "
             "verify calls on the real package against a reference verifier")

OPS = [(h, m) for h in ("raise", "print", "return", "ignore")
       for m in ("write", "read")]
SKIP = {"unknown", "unknown version", "deprecated"}
EDITS = {k: v for k, v in c04.EDITS.items() if k not in SKIP}
EDITS.update({
    "no title 2": [["del", "GLOBAL_Title"], ["del", "GLOBAL_License"]],
    "nothing left": [["del", "SourcePosition"], ["del", "Data_Delay"],
                     ["del", "GLOBAL_RoomType"],
                     ["del", "ListenerPosition_Type"]],
    "dimension gone": [["del", "ReceiverPosition"]],
    "data gone": [["del", "Data_IR"]],
    "unit text": [["set", "ListenerPosition_Units", ["n", 3]]],
    "custom text": [["add", "Words", ["U", ["a", "bcd"]], "string", "JS"]],
    "custom dims": [["add", "Rows", ["ramp", [2, 3]], "double", "jk"]],
})
OBJECTS = [["GeneralFIR", "1.0"], ["SimpleFreeFieldHRIR", "1.0"]]
OTHER = [[n, v] for (n, v, _) in fixture.SPEC if [n, v] not in OBJECTS]
FEW = ["no title", "no variable", "number as text", "unit case", "value",
       "dependency", "custom", "custom name", "shape", "nothing left"]


def BOUNDS(tier):
    return {"defects": len(EDITS), "combined": "3" if tier == "thorough"
            else "2 (first object)", "ways": len(OPS), "sequences": "all of length 2 (3 in "
            "the thorough tier) for single defects; each way followed by "
            "every way for combined defects",
            "conventions": len(fixture.SPEC)}


def cases(tier):
    out = []
    names = list(EDITS)
    for c in OBJECTS:
        out.append(["deep", c, []])
        out += [["deep", c, [e]] for e in names]
        if c == OBJECTS[0] or tier == "thorough":
            out += [["chain", c, [e]] for e in names]
        if tier == "thorough":
            out += [["chain3", c, [a, b]] for a, b in
                    itertools.combinations(names, 2)]
    for c in OTHER:
        out.append(["deep", c, []])
        out += [["deep", c, [e]] for e in FEW]
    return out


def run(case, ctx):
    kind, conv, edits = case
    if kind == "deep":
        depth = 3 if ctx.tier == "thorough" else 2
        if edits == []:
            depth = 3
        for seq in itertools.product(range(len(OPS)), repeat=depth):
            # prefixes are covered by the steps of longer sequences
            obj = build(ctx, conv, edits)
            if obj is not None:
                sequence(ctx, obj, [OPS[i] for i in seq], [conv, edits])
    else:
        names = list(EDITS)
        rest = names[names.index(edits[-1]) + 1:]
        for e in rest:
            for op in OPS:
                obj = build(ctx, conv, edits + [e])
                if obj is not None:
                    sequence(ctx, obj, [op] + OPS, [conv, edits + [e]])
    ctx.sample(case)


def build(ctx, conv, edits):
    """Protected object with the defects and its custom entries."""
    obj, m = model.fresh(ctx.sf, *conv)
    ctx.trace()
    if "deprecated 2" in edits and conv[0] != "GeneralFIR":
        return None         # the other convention has other entries
    for e in edits:
        for op in EDITS[e]:
            obj.protected = False
            val = None if len(op) < 3 else c04value(op[2], obj)
            if op[0] == "set":
                if op[1] not in m.ent:
                    continue
                setattr(obj, op[1], val)
            elif op[0] == "del":
                if op[1] in m.ent:
                    m.ent.pop(op[1])
                    m.custom.pop(op[1], None)
                    obj.delete(op[1])
            elif op[0] == "add":
                if call(obj.add_variable, op[1], val, op[3], op[4]).ok:
                    m.custom[op[1]] = (op[3], op[4])
                    m.ent[op[1]] = 0
            elif op[0] == "attr":
                if call(obj.add_attribute, op[1], val).ok:
                    m.custom[op[1]] = ("attribute", None)
                    m.ent[op[1]] = 0
    obj.protected = True
    return obj, m.custom


def c04value(v, obj):
    if v[0] == "ramp" and "R" in v[1]:
        n = len(getattr(obj, "ReceiverPosition", [0]))
        v = [v[0], [n if s == "R" else s for s in v[1]]]
    return ref.make(v)


def sequence(ctx, built, seq, label):
    obj, custom = built
    for n, (how, mode) in enumerate(seq):
        ent = ref.entries(obj)
        before = ref.snapshot(obj)
        order = list(ent)
        conv = model.conv_of(ent["GLOBAL_SOFAConventions"],
                             ent["GLOBAL_SOFAConventionsVersion"])
        custom = {k: v for k, v in custom.items() if k in ent}
        v = ref.verify(ent, conv, custom, mode)
        info = {"object": label, "calls": seq[:n + 1]}
        ctx.step()
        ctx.state(label, how, mode, sorted(before))
        if how == "raise":
            ref.judge(ctx, obj, v, mode, info)
            after = before
        else:
            out = call(obj.verify, how, mode)
            ctx.require(out.ok, "verify(%r, %r) raised %r" % (
                how, mode, out.exc), **info)
            ctx.require(not out.warnings, "verify(%r, %r) warns" % (
                how, mode), warnings=out.warnings, **info)
            filled = dict(ent)
            for k in conv:
                if k in v.missing:
                    filled[k] = ref.store(conv[k]["default"])
            after = {k: ref.canon(x) for k, x in filled.items()}
            issues(ctx, out, how, mode, v, ref.verify(
                filled, conv, custom, mode) if v.missing else v, info)
        got = ref.snapshot(obj)
        for k in set(got) - set(before):
            ctx.require(ref.squeezed(getattr(obj, k)) == ref.squeezed(
                ref.store(conv[k]["default"])), "%s is %r" % (
                    k, getattr(obj, k)), **info)
            after[k] = got[k]
        ctx.require(got == after, "verify(%r, %r) changed entries: %s" % (
            how, mode, ref.diff(after, got)), **info)
        ctx.require([k for k in got if k in before] == order,
                    "order of the entries changed", **info)
        ctx.require(bool(obj.protected), "not protected any more", **info)
        ctx.outcome("%s: %s" % (how, "error" if v.error(mode) else
                                "warning" if v.warning(mode) else "valid"))


def issues(ctx, out, how, mode, v, full, info):
    """Compare what is returned or printed with the verdict; `full` is the
    verdict after missing entries were added."""
    what = "verify(%r, %r)" % (how, mode)
    text = out.stdout if how == "print" else out.value
    if how == "ignore":
        ctx.require(out.value is None and out.stdout == "",
                    what + " reports: %r" % out, **info)
        return
    ctx.require((out.value is None) if how == "print" else out.stdout == "",
                what + " prints and returns: %r" % out, **info)
    expected = v.error(mode) or v.warning(mode)
    ctx.require(bool((text or "").strip()) == expected,
                what + " reports %r" % text, expected=sorted(v.named()),
                **info)
    if not expected:
        ctx.require(text is None or text == "", what + ": %r" % text, **info)
        return
    known = v.named() | full.named() | v.conflict
    got = ref.offenders(text, known)
    if v.types:
        want = v.missing | v.types
    elif v.missing:
        want = v.missing | full.named()
    else:
        want = v.named()
    if full.deprecated and mode == "write":
        got.discard("GLOBAL_SOFAConventions")
    if full.conflict and not v.types:
        ctx.require(got & full.conflict or v.missing, "conflict not named",
                    **info)
        got -= full.conflict | full.shapes
        want = want - full.conflict - full.shapes
    if full.conflict:
        return
    ctx.require(got == want, what + " names %s instead of %s" % (
        sorted(got), sorted(want)), text=text, **info)
