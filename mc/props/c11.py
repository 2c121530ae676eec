"""C11 assignment: all sequences of up to two (three) assignments of a value
alphabet to entries, executed on the real object and compared bit by bit."""
import itertools

import numpy as np

from .. import fixture, model, objs, ref
from ..engine import call

PROPERTY = "C11"
TECHNIQUE = ("exhaustive enumeration of assignment sequences over a value "
             "alphabet on the real object against the storage model")

VALUES = [
    ["n", 0], ["n", -3], ["n", 2.5], ["n", True], ["list", []],
    ["list", [1]], ["list", [[1]]], ["list", [[[1.5]]]], ["list", [1, 2]],
    ["list", [1, 2.5]], ["list", [[1], [2]]], ["list", [[1, 2], [3, 4]]],
    ["list", [[[1, 2], [3, 4]]]], ["list", [[1, 2], [3]]],
    ["list", [1, [2]]], ["tuple", [1, 2, 3]], ["tuple", [4]],
    ["list", ["a", "bb"]], ["list", ["a"]], ["list", ["a", 1]],
    ["s", ""], ["s", "text"], ["s", "\u00e9 \u65e5"], ["s", " x\n"],
    ["arr", 5.0], ["arr", [1]], ["arr", [1, 2]], ["arr", [[1], [2]]],
    ["arr", [[[1, 2]]]], ["arr", [[1, 2]], "i4"], ["arr", [[1, 2]], "f4"],
    ["arr", [], "f8"], ["ramp", [2, 1, 3, 1]], ["ramp", [1, 1, 1, 1, 2]],
    ["bits", ["nan", "-0.0", "inf"]], ["bits", ["0x0.0000000000001p-1022"]],
    ["U", "text"], ["U", ["a", "bb"]], ["U", [["a"], [""]]],
    ["S", ["x", "\u00e9"]], ["range", 3], ["np", ["f8", 1.5]],
    ["np", ["i4", 7]], ["np", ["f4", 0.1]], ["np", ["U", "t"]],
    ["order", [2, 3]], ["view", [2, 3]], ["arr", [1, 2], ">f8"],
    ["arr", [[1, 300]], ">i2"], ["arr", [0.5, 1], "f2"], ["n", 2 ** 60 + 1],
    ["list", [2 ** 60 + 1, 1]], ["ramp", [3000]], ["ramp", [40, 2, 20]],
    ["s", "long text " * 300], ["U", ["x" * 300, "y"]], ["masked", [1, 2, 3]],
    ["tuple", [[1, 2], [3, 4]]], ["list", [1e300, -1e-300]],
    ["list", [True, False]], ["arr", [True], "?"],
]
TARGETS = ["Data_IR", "SourcePosition", "Data_SamplingRate", "GLOBAL_Title",
           "SourceView", "SourcePosition_Units", "Mine", "MineText",
           "GLOBAL_Mine"]


def make(v):
    if v[0] == "range":
        return range(v[1])
    if v[0] == "np":
        return np.array(v[1][1], dtype=v[1][0])[()]
    if v[0] == "order":
        return np.asfortranarray(np.arange(6.0).reshape(v[1]))
    if v[0] == "view":
        return np.arange(24.0).reshape(4, 6)[::2, ::2]
    if v[0] == "masked":
        return np.ma.masked_equal(v[1], 2)
    return ref.make(v)


def BOUNDS(tier):
    return {"values": len(VALUES), "entries": len(TARGETS),
            "assignments in a row": 2, "entries of all conventions": "each "
            "writable entry x every value (thorough)"}


def cases(tier):
    out = [["pairs", t, i] for t in TARGETS for i in range(len(VALUES))]
    out += [["two", t, u] for t in TARGETS for u in TARGETS if t != u]
    out += [["each", n, v] for (n, v, _) in fixture.SPEC]
    return out


def stored(v):
    """(expected exception or None, canonical stored value)"""
    val = make(v)
    try:
        return None, ref.canon(ref.store(val))
    except ValueError:
        return ValueError, None


def start(ctx, name="SimpleFreeFieldHRIR", version="1.0"):
    out = call(ctx.sf.Sofa, name, version=version, verify=False)
    if not out.ok:
        raise out.exc
    obj = out.value
    if name == "SimpleFreeFieldHRIR":
        obj.add_variable("Mine", [1, 2, 3], "double", "C")
        obj.add_variable("MineText", "t", "string", "IS")
        obj.add_attribute("GLOBAL_Mine", "t")
    return obj


def assign(ctx, obj, content, name, v):
    ctx.step()
    val = make(v)
    before = ref.canon(val)
    error, want = stored(v)
    out = call(setattr, obj, name, val)
    info = {"entry": name, "value": v}
    if error is not None:
        ctx.require(out.raised(error), "assignment should raise %s: %r" % (
            error.__name__, out), **info)
    else:
        ctx.require(out.ok, "assignment raised %r" % out.exc, **info)
        content[name] = want
    ctx.require(ref.canon(val) == before, "assignment changed the value "
                "handed in", **info)
    got = ref.snapshot(obj)
    ctx.require(got == content, "content after assignment: %s" % ref.diff(
        content, got), **info)
    if out.ok:
        ctx.require(ref.canon(getattr(obj, name)) == want,
                    "reading the entry returns another value", **info)
    return val


def run(case, ctx):
    kind = case[0]
    if kind == "pairs":
        _, name, i = case
        for second in [None] + VALUES:
            obj = start(ctx)
            content = ref.snapshot(obj)
            assign(ctx, obj, content, name, VALUES[i])
            if second is not None:
                assign(ctx, obj, content, name, second)
            ctx.trace()
            ctx.state(name, sorted(content.items()))
    elif kind == "two":
        _, a, b = case
        obj = start(ctx)
        content = ref.snapshot(obj)
        for v, w in itertools.product(VALUES[::3], VALUES[1::3]):
            assign(ctx, obj, content, a, v)
            assign(ctx, obj, content, b, w)
            ctx.state(a, b, content[a], content[b])
        ctx.trace()
    else:
        _, n, ver = case
        conv = model.conv_of(n, ver)
        obj = start(ctx, n, ver)
        content = ref.snapshot(obj)
        for k, s in conv.items():
            if ref.read_only(s):
                continue
            for v in VALUES if ctx.tier == "thorough" else VALUES[::4]:
                assign(ctx, obj, content, k, v)
                ctx.state(n, ver, k, content[k])
        ctx.trace()
    ctx.sample(case)
