"""C13 independence: worlds of several objects (original, copy, copy of the
copy, pickled copy, object read from the file of the original, new objects of
the same and
of another convention); all interleavings of operations on them up to a depth.
After every operation the complete content of *all* objects is compared with
their own models, at the end also their verification results."""
import itertools
import os
import pickle

import numpy as np

from .. import model, objs, ref
from ..engine import call

PROPERTY = "C13"
TECHNIQUE = ("exhaustive interleaving exploration: all sequences of "
             "(object, operation) up to a depth over a world of objects, "
             "each object in lockstep with its own model")

V = ["s", "changed"]
PRE = [
    [],
    [["add", "Mine", ["list", [1, 2, 3]], "double", "P"],
     ["attr", "Mine_Units", ["s", "u"]]],
    [["del", "GLOBAL_Comment"], ["prot", False]],
    [["set", "SourcePosition", ["list", [1, 2]]]],      # not valid
    [["add", "Mine", ["U", ["a", "bb"]], "string", "PS"],
     ["verify", "return", "write"]],
]
OPS = [
    ["set", "Data_IR", ["ramp", [1, 2, 4]]], ["set", "GLOBAL_Title", V],
    ["set", "GLOBAL_RoomType", ["s", "kitchen"]],
    ["inplace", "Data_IR"], ["inplace", "SourcePosition"],
    ["inplace", "Mine"], ["del", "GLOBAL_Comment"],
    ["add", "Mine", ["n", 5], "double", "I"],
    ["add", "Other", ["list", [1, 2]], "double", "Q"],
    ["attr", "GLOBAL_Mine", V], ["del", "Mine"],
    ["prot", False], ["missing", True, True],
    ["verify", "return", "write"], ["set", "GLOBAL_Version", V],
    ["upgrade"],
]
CORE = [0, 3, 5, 7, 8, 9, 10, 11, 12, 15]
SECOND = [7, 15, 3, 11]
WHO = ["orig", "copy", "copy2", "pickled", "read", "same", "other"]


def BOUNDS(tier):
    return {"objects in the world": WHO, "operations": len(OPS),
            "starting states": len(PRE),
            "depth": "2" + (" with all operations" if tier == "thorough" else
                         " with %d second operations" % len(SECOND)) + (
                ", 3 with %d operations" % len(CORE)
                if tier == "thorough" else "")}


def cases(tier):
    steps = [[w, o] for w in WHO for o in range(len(OPS))]
    core = [[w, o] for w in WHO for o in CORE]
    out = [["2", p, s] for p in range(len(PRE)) for s in (
        steps if tier == "thorough" or p < 2 else core)]
    if tier == "thorough":
        out += [["3", p, s, t] for p in (0, 1) for s in core for t in core]
    return out


def clone_pair(ctx, pair, obj):
    new = object.__new__(model.Pair)
    new.ctx, new.obj, new.model = ctx, obj, pair.model.clone()
    new.history = []
    return new


CONV = ("FreeFieldDirectivityTF", "1.0", "FreeFieldDirectivityTF_1.1")


def world(ctx, pre):
    """{name: pair}; objects that can not be built are left out."""
    ctx.trace()
    w = {}
    a = w["orig"] = model.Pair(ctx, "SimpleFreeFieldHRIR", "0.4")
    for op in PRE[pre]:
        a.apply(op)
    for name, src in (("copy", "orig"), ("copy2", "copy")):
        out = call(w[src].obj.copy)
        ctx.require(out.ok, "copy raised %r" % out.exc, pre=PRE[pre])
        w[name] = clone_pair(ctx, w[src], out.value)
    out = call(lambda: pickle.loads(pickle.dumps(a.obj)))
    ctx.require(out.ok, "pickling raised %r" % out.exc, pre=PRE[pre])
    w["pickled"] = clone_pair(ctx, a, out.value)
    path = os.path.join(ctx.dir, "world-%d.sofa" % pre)
    if not a.model.verdict().error("write"):
        if not os.path.exists(path):
            out = call(ctx.sf.write_sofa, path, a.obj)
            ctx.require(out.ok, "write raised %r" % out.exc, pre=PRE[pre])
        out = call(ctx.sf.read_sofa, path, verbose=False)
        ctx.require(out.ok, "read raised %r" % out.exc, pre=PRE[pre])
        p = clone_pair(ctx, a, out.value)
        p.model.ent = dict(ref.entries(out.value))
        p.model.protected = True
        w["read"] = p
    w["same"] = model.Pair(ctx, "SimpleFreeFieldHRIR", "0.4")
    w["other"] = model.Pair(ctx, "FreeFieldDirectivityTF", "1.0")
    for p in w.values():
        p.ctx.transitions += 1
        p.model.ent = {k: (v.copy() if isinstance(v, np.ndarray) else v)
                       for k, v in p.model.ent.items()}
    return w


def apply(ctx, w, who, op, log):
    p = w.get(who)
    if p is None:
        return False
    log.append([who, op])
    if op[0] == "inplace":
        v = ref.entries(p.obj).get(op[1])
        if not (isinstance(v, np.ndarray) and v.dtype.kind in "if"):
            return False
        ctx.step()
        v *= 3
        v += 1
        p.model.ent[op[1]] = p.model.ent[op[1]] * 3 + 1
        return True
    if op[0] == "upgrade":
        ctx.step()
        target = {"SimpleFreeFieldHRIR": "SimpleFreeFieldHRIR_1.0",
                  "FreeFieldDirectivityTF": "FreeFieldDirectivityTF_1.1"}[
                      p.model.id[0]]
        call(p.obj.upgrade_convention, target)
        # (what the upgrade does is decided elsewhere)
        p.model.id = tuple(target.rsplit("_", 1))
        p.model.conv = model.conv_of(*p.model.id)
        p.model.ent = {k: (v.copy() if isinstance(v, np.ndarray) else v)
                       for k, v in ref.entries(p.obj).items()}
        p.model.custom = {k: v for k, v in p.model.custom.items()
                          if k not in p.model.conv}
        p.model.protected = bool(p.obj.protected)
        return True
    name = op[1] if len(op) > 1 else None
    if op[0] == "set" and name not in p.model.ent:
        return False
    if op[0] == "set" and name == "GLOBAL_Version" \
            and not p.model.protected:
        return False
    if op[0] == "set" and name == "Data_IR" and p.model.id[0] != \
            "SimpleFreeFieldHRIR":
        return False
    p.apply(op)
    return True


def check_all(ctx, w, log, pre):
    for who, p in w.items():
        got = ref.snapshot(p.obj)
        want = {k: ref.canon(v) for k, v in p.model.ent.items()}
        if got != want:
            ctx.fail("%r differs from its own history: %s" % (
                who, ref.diff(want, got)), log=log, pre=PRE[pre])
        prot = bool(p.obj.protected)
        if log and log[-1][0] == who:
            if p.model.protected and not prot:
                ctx.fail("%r lost its protection" % who, log=log)
            p.model.protected = prot
        elif prot != p.model.protected:
            ctx.fail("protection of %r changed" % who, log=log,
                     pre=PRE[pre])


def check_copies(ctx, w, pre):
    """A copy equals its original and shares no memory with it."""
    for a, b in (("orig", "copy"), ("copy", "copy2"), ("orig", "copy2"),
                 ("orig", "pickled")):
        x, y = w[a].obj, w[b].obj
        ctx.step()
        ctx.require(ref.snapshot(x) == ref.snapshot(y)
                    and bool(x.protected) == bool(y.protected),
                    "the copy differs", pre=PRE[pre])
        out = call(ctx.sf.equals, x, y, verbose=False)
        ctx.require(out.ok and out.value is True, "equals(%s, %s): %r" % (
            a, b, out), pre=PRE[pre])
        for k, v in ref.entries(x).items():
            u = getattr(y, k)
            if isinstance(v, np.ndarray):
                ctx.require(not np.shares_memory(u, v), "%s is shared with "
                            "the copy" % k, pre=PRE[pre])
        ctx.require(list(ref.entries(x)) == list(ref.entries(y)),
                    "order of the entries in the copy", pre=PRE[pre])


def check_behaviour(ctx, w, log, pre):
    """Verification results and protection rules agree with the models."""
    for who, p in w.items():
        for mode in ("write", "read") if ctx.tier == "thorough" else (
                "write",):
            v = p.model.verdict(mode)
            ctx.step()
            out = call(p.obj.verify, "raise", mode)
            ctx.require(out.ok == (not v.error(mode)), "verification of %r: "
                        "%r, expected %s" % (who, out, sorted(
                            v.named() | v.conflict)), log=log,
                        pre=PRE[pre], mode=mode)
        # protection flags still follow the convention of the object
        if p.model.protected:
            out = call(setattr, p.obj, "GLOBAL_SOFAConventions", "x")
            ctx.require(out.raised(TypeError), "read-only entry of %r can "
                        "be written" % who, log=log, pre=PRE[pre])
        out = call(setattr, p.obj, "GLOBAL_Title", "t-" + who)
        ctx.require(out.ok, "GLOBAL_Title of %r is refused: %r" % (who, out),
                    log=log, pre=PRE[pre])
        p.model.ent["GLOBAL_Title"] = "t-" + who
    check_all(ctx, w, [], pre)
    ctx.state(pre, *[(k, p.model.key()) for k, p in sorted(w.items())])


def run(case, ctx):
    pre, first = case[1], case[2]
    if case[0] == "2":
        deep = ctx.tier == "thorough"
        seqs = [(first, [u, o]) for u in WHO for o in (
            range(len(OPS)) if deep else SECOND)]
        if not deep and pre > 1:
            # the other starting states: second operation on another object
            seqs = [(first, [u, o]) for u in WHO for o in SECOND[:2]
                    if u != first[0]]
    else:
        seqs = [(first, case[3], [u, o]) for u in WHO for o in CORE]
    for n, seq in enumerate(seqs):
        w = world(ctx, pre)
        log = []
        if n == 0:
            check_copies(ctx, w, pre)
        check_all(ctx, w, log, pre)
        for who, o in seq:
            if not apply(ctx, w, who, OPS[o], log):
                ctx.outcome("not applicable")
                break
            check_all(ctx, w, log, pre)
        else:
            check_behaviour(ctx, w, log, pre)
            ctx.outcome("explored")
    ctx.sample(case)
