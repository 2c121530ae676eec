"""C12 custom entries: the complete grammar of additions (names x types x
dimensions x values) is tried on several objects, and every well formed entry
is taken through all sequences of keeping operations, deletion and addition
under another description; value, type and dimensions are compared with the
operational model."""
import itertools
import os

import numpy as np

from .. import model, objs, ref
from ..engine import call

PROPERTY = "C12"
TECHNIQUE = ("exhaustive enumeration of additions and of all life-cycle "
             "histories up to a depth on the real object, in lockstep with "
             "the operational model")

NAMES = ["New", "new", "N2", "GLOBAL_New", "GLOBAL_new_2", "GLOBAL_",
         "GLOBAL", "SourcePosition_New", "SourcePosition_Units_New",
         "Nothing_New", "New_Units", "Data_New", "Data_IR_New", "_New",
         "New_", "Data.New", "SourcePosition", "GLOBAL_Title", "Mine",
         "Mine_Units", "Mine_Other", "GLOBAL_Mine", "verify", "copy",
         "protected", "list_dimensions", "SourceView", "SourceView_Type",
         "SourceView_Other", "New__Units", "Global_New", "GLOBALX_New",
         "Data_IR_", "Data__New", "Data_IR_New_New", "Data_Delay_Units",
         "Data_Nothing_New", "New.x", "Ne/w", "Data.IR_New", "Data/IR_New",
         "GLOBAL_New.x", "a b", "N:x", "\u00c4"]
TYPES = ["attribute", "double", "string", "int", "", "Double", "str", None]
DIMS = [None, "I", "M", "m", "MC", "mc", "P", "PQ", "MRNE", "S", "IS", "MS",
        "ms", "PS", "SM", "MSR", "PQS"]
VALUES = [["n", 1.5], ["s", "text"], ["list", [1, 2]],
          ["list", [[1, 2], [3]]]]
STATES = {
    "plain": [],
    "custom": [["add", "Mine", ["n", 1], "double", "I"],
               ["attr", "Mine_Units", ["s", "u"]],
               ["attr", "GLOBAL_Mine", ["s", "g"]]],
    "noview": [["del", "SourceView"], ["del", "SourceView_Type"],
               ["del", "SourceView_Units"]],
    "unprotected": [["prot", False]],
    "readback": [["add", "Mine", ["n", 1], "double", "I"], ["trip"]],
}
# entries of the life-cycle part: [operations that add]
LIFE = [[["add", "Mine", v, "double", d]] for d, v in objs.CUSTOM_DOUBLE] + \
    [[["add", "Mine", v, "string", d]] for d, v in objs.CUSTOM_STRING] + [
    [["attr", "GLOBAL_Mine", ["s", "g \u00e9"]]],
    [["attr", "GLOBAL_Mine", ["s", ""]]],
    [["attr", "SourcePosition_Mine", ["s", "of a variable"]]],
    [["add", "Mine", ["n", 2], "double", "I"],
     ["attr", "Mine_Units", ["s", "furlong"]]],
    [["add", "Mine", ["s", "a"], "string", "IS"],
     ["attr", "Mine_Other", ["s", "\u65e5"]],
     ["attr", "Mine_Third", ["s", "3"]]],
    [["add", "Mine", ["n", 2], "double", "I"],
     ["add", "Yours", ["U", ["a", "bb"]], "string", "PS"]],
]
KEEP = [["verify", "raise", "write"], ["verify", "return", "read"],
        ["missing", True, True], ["copy"], ["trip"],
        ["dim", "M"], ["inspect"], ["set", "GLOBAL_Title", ["s", "other"]],
        ["upgrade", None]]
# conventions that can be upgraded: (name, version, target)
UPGRADES = [["SimpleFreeFieldHRIR", "0.4", "SimpleFreeFieldHRIR_1.0"],
            ["SimpleFreeFieldTF", "0.4", "SimpleFreeFieldHRTF_1.0"],
            ["FreeFieldDirectivityTF", "1.0", "FreeFieldDirectivityTF_1.1"],
            ["MultiSpeakerBRIR", "0.3", "SingleRoomMIMOSRIR_1.0"]]


def BOUNDS(tier):
    return {"names": len(NAMES), "types": TYPES, "dimensions": DIMS,
            "values": len(VALUES), "object states": sorted(STATES),
            "life-cycle entries": len(LIFE), "keeping operations": len(KEEP),
            "depth of histories": 3 if tier == "thorough" else 2,
            "re-additions": "every pair of life-cycle entries",
            "upgrades": len(UPGRADES)}


def cases(tier):
    out = [["grammar", s, n] for s in STATES for n in NAMES]
    out += [["life", i, j] for i in range(len(LIFE))
            for j in range(len(KEEP))]
    out += [["again", i, j] for i in range(len(LIFE)) for j in range(6)]
    out += [["upgrade", u, i] for u in UPGRADES for i in range(0, 9)]
    return out


def info_of(ctx, pair, name):
    """(type, shape) printed for one entry."""
    out = call(pair.obj.info, name)
    ctx.require(out.ok, "info(%r) raised %r" % (name, out.exc),
                history=pair.history)
    lines = out.stdout.splitlines()
    for i, line in enumerate(lines):
        if line == name:
            got = {}
            for sub in lines[i + 1:]:
                if not sub.startswith("    "):
                    break
                k, _, v = sub.strip().partition(": ")
                got[k.rstrip(":")] = v
            return got.get("type"), got.get("shape")
    ctx.fail("info(%r) does not show the entry" % name,
             history=pair.history)


def check(ctx, pair):
    """Content and description of all custom entries."""
    pair.check_content()
    for name, (typ, dims) in pair.model.custom.items():
        if name not in pair.model.ent:
            continue
        t, d = info_of(ctx, pair, name)
        want = "NONE" if dims is None else dims.upper()
        ctx.require((t, d) == (typ, want), "%s is described as %s (%s) "
                    "instead of %s (%s)" % (name, t, d, typ, want),
                    history=pair.history)
    ctx.state(pair.model.key())


def gone(ctx, pair, name):
    """No trace of a deleted entry."""
    ctx.require(name not in vars(pair.obj), "%s is still there" % name,
                history=pair.history)
    out = call(pair.obj.info, name)
    ctx.require(out.raised(ValueError), "info(%r) after deletion: %r" % (
        name, out), history=pair.history)
    out = call(pair.obj.info, "all")
    ctx.require(out.ok and not any(
        ln.startswith(name + " :") for ln in out.stdout.splitlines()),
        "info('all') after deletion: %r" % out, history=pair.history)
    out = call(pair.obj.inspect, issue_handling="ignore")
    ctx.require(out.ok and not any(
        ln.startswith(name + " :") for ln in out.stdout.splitlines()),
        "inspect after deletion of %s: %r" % (name, out),
        history=pair.history)


def start(ctx):
    pair = model.Pair(ctx, "GeneralFIR", "1.0")
    for op in (["set", "ListenerPosition", ["ramp", [2, 3]]],
               ["set", "Data_IR", ["ramp", [2, 1, 3]]],
               ["set", "Data_Delay", ["list", [[0.5]]]],
               ["set", "ReceiverPosition", ["list", [[0, 0, 0]]]]):
        pair.apply(op)
    return pair


def add(ctx, pair, ops):
    for op in ops:
        pair.apply(op)


def verdict(ctx, pair):
    """verify, get_dimension and the file agree with the description."""
    v = pair.model.verdict("write")
    out = call(pair.obj.verify, "raise", "write")
    ctx.require(out.ok == (not v.error("write")),
                "verification of the custom entry: %r, expected %s" % (
                    out, sorted(v.named() | v.conflict) or "no issue"),
                history=pair.history)
    if not out.ok:
        return
    for d, n in v.dims.items():
        out = call(pair.obj.get_dimension, d)
        ctx.require(out.ok and out.value == n, "get_dimension(%r): %r "
                    "instead of %s" % (d, out, n), history=pair.history)


def run(case, ctx):
    kind = case[0]
    if kind == "grammar":
        _, state, name = case
        pair = None
        for typ, dims, val in itertools.product(TYPES, DIMS, VALUES):
            if typ == "attribute" and dims is not None:
                continue             # attributes have no dimensions
            if typ not in TYPES[:3] and (dims not in (None, "I")
                                         or val != VALUES[0]):
                continue
            if pair is None:
                pair = model.Pair(ctx, "SimpleFreeFieldHRIR", "1.0")
                for op in STATES[state]:
                    pair.apply(op)
            out, expected = pair.apply(["add", name, val, typ, dims])
            ctx.outcome("added" if out.ok else "refused")
            pair.check_content()
            if out.ok:
                new = dims is not None and any(
                    d not in "ERMNCIS" for d in dims.upper())
                ctx.require(any("dimension" in w for w in out.warnings) ==
                            new, "warnings about custom dimensions: %r"
                            % out.warnings, history=pair.history)
                ctx.require(bool(pair.obj.protected), "object is not "
                            "protected after adding", history=pair.history)
                if name in pair.model.custom:
                    check(ctx, pair)
                pair.apply(["del", name])
                if not (pair.model.protected and name in pair.model.ent):
                    gone(ctx, pair, name)
                pair.check_content()
                pair = None          # continue after refusals only
            if dims is None and typ == "attribute":
                again = model.Pair(ctx, "SimpleFreeFieldHRIR", "1.0")
                for op in STATES[state]:
                    again.apply(op)
                out2, _ = again.apply(["attr", name, val])
                again.check_content()
                ctx.require(out.ok == out2.ok, "add_attribute and "
                            "add_variable differ", history=again.history)
    elif kind == "life":
        _, i, j = case
        depth = 3 if ctx.tier == "thorough" else 2
        for rest in itertools.product(range(len(KEEP)), repeat=depth - 1):
            pair = start(ctx)
            add(ctx, pair, LIFE[i])
            check(ctx, pair)
            for k in (j,) + rest:
                pair.apply(KEEP[k])
                check(ctx, pair)
            names = list(pair.model.custom)
            if j and ctx.tier != "thorough":
                continue
            for n in reversed(names):
                pair.apply(["del", n])
                gone(ctx, pair, n)
            check(ctx, pair)
            verdict(ctx, pair)
    elif kind == "again":
        _, i, j = case
        between = [[], [["verify", "return", "write"]], [["copy"]],
                   [["trip"]], [["prot", False]],
                   [["verify", "return", "write"], ["prot", False],
                    ["copy"]]][j]
        step = 1 if j < 2 or ctx.tier == "thorough" else 4
        for other in range(i % step, len(LIFE), step):
            pair = start(ctx)
            add(ctx, pair, LIFE[i])
            for op in between:
                pair.apply(op)
            for n in reversed(list(pair.model.custom)):
                pair.apply(["delete", n])
                gone(ctx, pair, n)
            add(ctx, pair, LIFE[other])
            check(ctx, pair)
            verdict(ctx, pair)
            if j == 0 or ctx.tier == "thorough":
                pair.apply(["trip"])
                check(ctx, pair)
    else:
        _, (name, version, target), i = case
        entries = [
            ["attr", "GLOBAL_Mine", ["s", "kept"]],
            ["add", "Mine", ["n", 4.5], "double", "I"],
            ["add", "Mine", ["ramp", [1, 3]], "double", "IC"],
            ["add", "Mine", ["list", [1, 2, 3, 4]], "double", "P"],
            ["add", "Mine", ["ramp", [2, 4]], "double", "PQ"],
            ["add", "Mine", ["s", "text"], "string", "IS"],
            ["add", "Mine", ["U", ["a", "bb"]], "string", "PS"],
            ["attr", "SourcePosition_Mine", ["s", "kept"]],
            ["add", "Mine", ["n", 4.5], "double", "M"]]
        pair = model.Pair(ctx, name, version)
        op = entries[i]
        pair.apply(op)
        key = op[1]
        want = ref.canon(pair.model.ent[key])
        if op[0] == "add":
            pair.apply(["attr", "Mine_Note", ["s", "note"]])
        desc = info_of(ctx, pair, key)
        ctx.step()
        out = call(pair.obj.upgrade_convention, target)
        info = {"history": pair.history, "target": target}
        ctx.require(out.ok, "upgrade raised %r" % out.exc, **info)
        got = ref.snapshot(pair.obj)
        ctx.require(got.get(key) == want, "custom entry after the upgrade: "
                    "%r" % (got.get(key),), **info)
        ctx.require(info_of(ctx, pair, key) == desc, "description after the "
                    "upgrade", **info)
        if op[0] == "add":
            ctx.require(got.get("Mine_Note") == ("str", "note"),
                        "attribute of the custom entry was lost", **info)
        for what in ("verify", "copy", "del"):
            ctx.step()
            if what == "copy":
                pair.obj = pair.obj.copy()
            elif what == "verify":
                out = call(pair.obj.verify)
                ctx.require(out.ok, "verification after the upgrade: %r"
                            % out, **info)
            else:
                for k in ("Mine_Note", key):
                    if k in vars(pair.obj):
                        call(pair.obj.delete, k)
                        gone(ctx, pair, k)
            if what != "del":
                ctx.require(info_of(ctx, pair, key) == desc, "description "
                            "after %s" % what, **info)
        ctx.state(name, version, i)
    ctx.sample(case)
