"""C01 round trip: every object of the bounded space is written and read."""
import os

from .. import nc, objs, ref
from ..engine import call
from . import c03

PROPERTY = "C01"
TECHNIQUE = ("exhaustive enumeration of a bounded space of objects, each "
             "executed on the real writer and reader (explicit state, "
             "object -> file -> object -> file -> object)")


def BOUNDS(tier):
    return {"objects": sum(len(g) for g in objs.space(tier)),
            "conventions": len(objs.WRITABLE), "dimension sizes": "1..3 "
            "(N of SOS 6/12, E of spherical harmonics 1/4)",
            "custom entries": "all singles and pairs of the alphabet",
            "texts": len(objs.TEXTS), "special numbers": len(objs.BITS),
            "compression": "0..9", "consecutive trips": 2,
            "objects read from files of other programs": "those of C03"}


def cases(tier):
    files = [c for c in c03.flat(tier) if not c.get("invalid")]
    return objs.space(tier) + [{"files": files[i:i + 24]}
                               for i in range(0, len(files), 24)]


def writable(case):
    """The case adds to valid data nothing that makes them invalid."""
    free = {"extra", "extra_attrs", "chars", "letters", "text", "order",
            "storage", "type"}
    return bool(free & set(case)) \
        and set(case) <= free | {"conv", "M", "R", "N", "E", "combo", "raw"} \
        and tuple(case["conv"]) in {tuple(w) for w in objs.WRITABLE} \
        and all(e[0] != "ListenerView" for e in case.get("extra", ())) \
        and not any(name in ("SourcePosition__Mine", "SourcePosition_a_b")
                    for name, _ in case.get("extra_attrs", ()))


def foreign(ctx, case):
    """A file of another program is read, written, and read again."""
    sf = ctx.sf
    source = os.path.join(ctx.dir, "source.sofa")
    path = os.path.join(ctx.dir, "target.sofa")
    nc.write(source, *c03.build(case),
             **nc.STORAGE.get(case.get("storage"), {}))
    ctx.step(3)
    obj = call(sf.read_sofa, source, verify=False, verbose=False)
    ctx.require(obj.ok, "reading raised %r" % obj.exc, what=case)
    obj = obj.value
    before = {k: c03.image_of(v) for k, v in ref.entries(obj).items()}
    ctx.state(case["conv"], sorted(before.items()))
    if case.get("raw") and os.path.exists(path):
        os.remove(path)
    old = None
    if os.path.exists(path):
        with open(path, "rb") as f:
            old = f.read()
    valid = call(obj.copy().verify, mode="write")
    out = call(sf.write_sofa, path, obj)
    ctx.require(out.ok == valid.ok, "writing: %r although verifying: %r" % (
        out, valid), what=case)
    ctx.require(out.ok or not writable(case), "valid data of another program "
                "can not be written: %r" % out, what=case)
    if not out.ok:
        new = None
        if os.path.exists(path):
            with open(path, "rb") as f:
                new = f.read()
        ctx.require(new == old, "the refused data changed the file %r" % out,
                    what=case)
        ctx.outcome("not writable")
    else:
        back = call(sf.read_sofa, path, verify=True, verbose=False)
        ctx.require(back.ok, "data that were written are not read: %r"
                    % back.exc, what=case)
        got = {k: c03.image_of(v) for k, v in ref.entries(
            back.value).items()}
        ctx.require(got == before, "writing data of another program: %s"
                    % ref.diff(before, got), what=case)
        ctx.outcome("written again")
    ctx.trace()


def dims_of(obj, letters):
    return {d: call(obj.get_dimension, d).value for d in letters}


def run(group, ctx):
    sf = ctx.sf
    if isinstance(group, dict):
        for case in group["files"]:
            foreign(ctx, case)
        return
    for case in group:
        obj, ent, v = objs.content(sf, case)
        if v.error("write"):
            raise AssertionError("case is not valid: %s %s" % (
                case, v.__dict__))
        before = ref.image(ent)
        ctx.state(case["conv"], before)
        path = os.path.join(ctx.dir, "a.sofa")
        letters = sorted(v.dims)
        dims0 = dims_of(obj, letters)
        current = obj
        for trip in (1, 2):
            ctx.step(2)
            out = call(sf.write_sofa, path, current,
                       **({"compression": case["compression"]}
                          if "compression" in case else {}))
            ctx.require(out.ok, "trip %d: writing raised %r" % (
                trip, out.exc), what=case)
            out = call(sf.read_sofa, path, verbose=False)
            ctx.require(out.ok, "trip %d: reading raised %r" % (
                trip, out.exc), what=case)
            back = out.value
            got = ref.image(ref.entries(back))
            ctx.require(got == before, "trip %d changed the data: %s" % (
                trip, ref.diff(before, got)), what=case)
            dims = dims_of(back, letters)
            ctx.require(dims == dims0, "trip %d changed dimensions: %s" % (
                trip, ref.diff(dims0, dims)), what=case)
            ctx.require(bool(call(back.verify, mode="read").ok),
                        "data read do not verify", what=case)
            current = back
        ctx.trace()
        ctx.outcome("round trips", 2)
        ctx.sample(case)
    if os.path.exists(os.path.join(ctx.dir, "a.sofa")):
        os.remove(os.path.join(ctx.dir, "a.sofa"))
