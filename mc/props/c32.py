"""C32 reported failures: in every public operation each single call into the
netCDF library, the operating system and the json reader is made to fail.  The
failure has to be reported, objects and input files have to be as before (or
as after success), and the repeated operation and all later observations have
to be those of a run without failure."""
import errno
import os
import resource
import signal
import zlib

import numpy as np

from .. import faults, model, nc, ref
from ..engine import call
from . import c30

PROPERTY = "C32"
TECHNIQUE = ("exhaustive fault injection: each external call of each public "
             "operation x kinds of failure on the real code, followed by the "
             "repeated operation, compared with runs without failure")

ERRORS = {"os": lambda: OSError(errno.EIO, "input/output error"),
          "interrupt": KeyboardInterrupt, "memory": MemoryError,
          "runtime": lambda: RuntimeError("NetCDF: HDF error"),
          "missing": lambda: FileNotFoundError(errno.ENOENT, "vanished")}
KINDS = list(ERRORS)

# objects: (convention, version, preparing operations)
OBJECTS = {
    "valid": ("GeneralFIR", "1.0", [
        ["set", "Data_IR", ["ramp", [2, 1, 3]]],
        ["set", "ListenerPosition", ["ramp", [2, 3]]],
        ["add", "Mine", ["ramp", [2]], "double", "P"],
        ["attr", "Mine_Units", ["s", "metre"]],
        ["add", "Words", ["U", ["\u00e9t\u00e9", "b"]], "string", "PS"]]),
    "incomplete": ("SimpleHeadphoneIR", "1.0", [
        ["prot", False], ["del", "GLOBAL_Title"], ["del", "ListenerPosition"],
        ["del", "GLOBAL_Comment"], ["prot", True],
        ["attr", "GLOBAL_Mine", ["s", "mine"]]]),
    "invalid": ("GeneralTF", "2.0", [
        ["set", "SourcePosition", ["ramp", [1, 4]]],
        ["set", "GLOBAL_RoomType", ["s", "kitchen"]]]),
    "outdated": ("SimpleFreeFieldHRIR", "0.4", [
        ["add", "Mine", ["ramp", [2]], "double", "P"]]),
    "deprecated": ("SimpleFreeFieldTF", "1.0", [
        ["set", "SourcePosition_Units", ["s", "degrees, deg, meters"]]]),
}
STREAM = ["GLOBAL_Title", "SourcePosition", "SourcePosition_Units", "Words",
          "Data_IR"]


def stream(sf, path):
    out = []
    with sf.SofaStream(path) as s:
        for name in STREAM:
            v = getattr(s, name)
            out.append(v if isinstance(v, str) else ref.canon(np.asarray(
                v[:])))
        s.list_dimensions
        out.append(s.get_dimension("M"))
        s.inspect(path[:-5] + ".txt")
    with open(path[:-5] + ".txt", encoding="utf-8") as f:
        out.append(f.read())
    return out


def saved(sf, path, obj):
    sf.write_sofa(path, obj)
    return model.file_dump(path)


def report(sf, path, obj):
    obj.inspect(path[:-5] + ".txt", "ignore")
    with open(path[:-5] + ".txt", encoding="utf-8") as f:
        return f.read()


# operation: (sf, object, file with data, file to write)
OPS = {
    "construct": lambda sf, o, f, p: sf.Sofa("GeneralFIR"),
    "construct mandatory": lambda sf, o, f, p: sf.Sofa(
        "SimpleHeadphoneIR", mandatory=True),
    "construct preliminary": lambda sf, o, f, p: sf.Sofa(
        "SimpleFreeFieldHRIR", version="0.4"),
    "list": lambda sf, o, f, p: sf.list_conventions(),
    "version": lambda sf, o, f, p: sf.version(),
    "write": lambda sf, o, f, p: saved(sf, p, o),
    "write plain": lambda sf, o, f, p: sf.write_sofa(p, o, 0),
    "read": lambda sf, o, f, p: sf.read_sofa(f),
    "read unverified": lambda sf, o, f, p: sf.read_sofa(f, False, False),
    "netcdf": lambda sf, o, f, p: sf.read_sofa_as_netcdf(f),
    "stream": lambda sf, o, f, p: stream(sf, f),
    "inspect": lambda sf, o, f, p: report(sf, p, o),
    "info": lambda sf, o, f, p: o.info("all"),
    "listdim": lambda sf, o, f, p: o.list_dimensions,
    "dim": lambda sf, o, f, p: o.get_dimension("M"),
    "missing": lambda sf, o, f, p: o.add_missing(),
    "add": lambda sf, o, f, p: o.add_variable("New", [1, 2], "double", "Q"),
    "attribute": lambda sf, o, f, p: o.add_attribute("GLOBAL_New", "x"),
    "delete": lambda sf, o, f, p: o.delete("GLOBAL_History"),
    "assign": lambda sf, o, f, p: setattr(o, "SourcePosition", [1, 2, 3]),
    "copy": lambda sf, o, f, p: o.copy(),
    "equals": lambda sf, o, f, p: sf.equals(o, o.copy(), False),
    "targets": lambda sf, o, f, p: o.upgrade_convention(),
    "upgrade": lambda sf, o, f, p: o.upgrade_convention(
        "SimpleFreeFieldHRIR_1.0"),
}
for h in ("raise", "print", "return", "ignore"):
    for m in ("write", "read"):
        OPS["verify %s %s" % (h, m)] = \
            lambda sf, o, f, p, h=h, m=m: o.verify(h, m)


WRITING = ("write", "write plain", "stream", "inspect")


# operations that have nothing to do with the object
UNRELATED = ("construct", "list", "version", "read", "netcdf", "stream")


def BOUNDS(tier):
    return {"operations": sorted(OPS), "objects": sorted(OBJECTS),
            "failing call": "each external call made by the package"
            + ("" if tier == "thorough" else ", kinds of failure in turn "
               "(two per call)"),
            "kinds": KINDS, "target of a save": "absent, existing",
            "size of the disk": "each %d bytes up to the size of the file"
            % (16 if tier == "thorough" else 256),
            "damaged data": "each compressed block x %d places" % PLACES}


PLACES = 6
REFUSED = ("invalid", "deprecated")


def cases(tier):
    out = [["disk", o, c, i, 16 if tier == "thorough" else 256]
           for o in OBJECTS for c in (0, 4) for i in range(4)
           if o not in REFUSED]
    out += [["damaged", o] for o in OBJECTS if o not in REFUSED]
    return out + [[op, o, part, tier == "thorough"] for op in OPS for o in OBJECTS
            for part in range(2)
            if tier == "thorough" or (not part or op in WRITING)
            and (o == "valid" or op.split()[0] not in UNRELATED)]


def value_of(v, sf):
    if isinstance(v, sf.Sofa):
        return ref.snapshot(v)
    return repr(v)


def observe(ctx, obj, path):
    """Later behaviour of an object."""
    out = []
    # protection of all entries and comparison before anything else
    work = obj.copy()
    e = call(ctx.sf.equals, work, obj, False)
    out.append(("equals", e.value, type(e.exc).__name__))
    for key in list(ref.entries(work)) + ["GLOBAL_Unknown"]:
        value = getattr(work, key, "text")
        d = call(setattr, work, key, value)
        out.append(("assign", key, type(d.exc).__name__))
        d = call(work.delete, key)
        out.append(("delete", key, type(d.exc).__name__))
    return out + c30.observe(ctx, obj.copy(), path)[:-1]


class World:
    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        self.file = os.path.join(ctx.dir, "data.sofa")
        self.path = os.path.join(ctx.dir, "out.sofa")
        self.sf = ctx.sf
        conv, version, ops = OBJECTS[name]
        pair = model.Pair(ctx, conv, version)
        for op in ops:
            pair.apply(op)
        self.base = pair.obj
        if not os.path.exists(self.file):
            pair = model.Pair(ctx, *OBJECTS["valid"][:2])
            for op in OBJECTS["valid"][2]:
                pair.apply(op)
            ctx.sf.write_sofa(self.file, pair.obj)

    def new(self, existing):
        for p in (self.path, self.path[:-5] + ".txt",
                  self.file[:-5] + ".txt"):
            if os.path.exists(p):
                os.remove(p)
        if existing:
            with open(self.path, "wb") as f:
                f.write(b"previous content")
        return self.base.copy()

    def bytes(self):
        with open(self.file, "rb") as f:
            return f.read()


def content(obj):
    return ref.snapshot(obj), bool(obj.protected)


def outcome(out, sf):
    return (None if out.ok else (type(out.exc).__name__, str(out.exc)),
            value_of(out.value, sf) if out.ok else None, out.warnings,
            out.stdout)


def undated(x):
    """Entries with the current time are not compared."""
    if isinstance(x, dict):
        return {k: v for k, v in x.items() if not model.dated(k)}
    if isinstance(x, (list, tuple)):
        return type(x)(undated(v) for v in x)
    return x


def disk(ctx, case):
    """A save for which the disk is too small by any number of bytes."""
    _, name, compression, part, step = case
    w = World(ctx, name)
    obj = w.new(False)
    obj.add_missing(verbose=False)
    out = call(ctx.sf.write_sofa, w.path, obj, compression)
    ctx.require(out.ok, "writing failed: %r" % out.exc)
    size = os.path.getsize(w.path)
    whole = model.file_dump(w.path)
    before = content(obj)
    limits = sorted(set(range(0, size, step)) | {size - 1, size, size + 1})
    for k in limits[part::4]:
        w.new(k % 3 == 0)
        ctx.trace()
        ctx.step()
        ctx.state("disk", name, compression, k)
        pid = os.fork()
        if not pid:
            rc = 9
            try:
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
                out = call_any(ctx.sf.write_sofa, w.path, obj, compression)
                rc = (0 if out.ok else 1) + (
                    0 if content(obj) == before else 2)
            finally:
                os._exit(rc)
        rc = os.waitpid(pid, 0)[1]
        ctx.require(os.WIFEXITED(rc) and os.WEXITSTATUS(rc) < 4,
                    "saving ended with status %d" % rc, size=size, disk=k)
        rc = os.WEXITSTATUS(rc)
        ctx.require(not rc & 2, "the object was changed", size=size, disk=k)
        ctx.outcome("disk full" if rc else "saved")
        if rc == 0:
            # (the library may need more space than the file has in the end)
            got = call(model.file_dump, w.path)
            ctx.require(got.ok and got.value == whole, "saving reported "
                        "success but the disk was full", size=size, disk=k)


def blocks(data):
    """Compressed blocks (start, end) of a file."""
    n = 0
    while True:
        n = data.find(b"\x78", n + 1)
        if n < 0:
            return
        d = zlib.decompressobj()
        try:
            d.decompress(data[n:])
        except zlib.error:
            continue
        if d.eof:
            yield n, len(data) - len(d.unused_data)


def damaged(ctx, case):
    """Data that the netCDF library can not read are never left out."""
    name = case[1]
    w = World(ctx, name)
    obj = w.new(False)
    obj.add_missing(verbose=False)
    # (entries that verification does not miss)
    for i, typ in enumerate(("double", "string")):
        call(obj.add_variable, "Extra" + str(i),
             np.arange(8.) if typ == "double" else np.array(
                 [["abcdefgh"], ["x"]]), typ, "Q" if typ == "double"
             else "TS")
    call(ctx.sf.write_sofa, w.path, obj, 9)
    with open(w.path, "rb") as f:
        good = f.read()
    found = list(blocks(good))
    ctx.require(len(found) > 2, "no compressed data were written")
    bad = w.path[:-5] + "-bad.sofa"
    for n, (a, b) in enumerate(found):
        for place in range(PLACES):
            at = (a, a + 1, a + 2, (a + b) // 2, b - 4, b - 1)[place]
            data = bytearray(good)
            data[at] ^= 0xff
            with open(bad, "wb") as f:
                f.write(data)
            ctx.trace()
            ctx.step(6)
            ctx.state("damaged", name, n, place)
            info = {"object": name, "block": n, "byte": at}
            raw = call(model.file_dump, bad)
            ctx.outcome("readable" if raw.ok else "unreadable")
            if raw.ok:
                continue
            for verify in (True, False):
                out = call(ctx.sf.read_sofa, bad, verify, False)
                ctx.require(not out.ok, "reading does not report damaged "
                            "data", verify=verify, **info)
            out = call(ctx.sf.read_sofa_as_netcdf, bad)
            ctx.require(not out.ok, "read_sofa_as_netcdf does not report "
                        "damaged data", **info)
            hit = []
            with ctx.sf.SofaStream(bad) as s:
                for key in ref.entries(obj):
                    out = call(lambda: np.asarray(getattr(s, key)[:]))
                    if not out.ok:
                        hit.append(key)
            ctx.require(hit, "streaming does not report damaged data",
                        **info)
    os.remove(bad)


def run(case, ctx):
    if case[0] in ("disk", "damaged"):
        globals()[case[0]](ctx, case)
        ctx.sample(case)
        return
    op, name, part, both = case
    w = World(ctx, name)
    sf, fn = ctx.sf, OPS[op]
    package = os.path.dirname(sf.__file__)
    data = w.bytes()
    probe = os.path.join(ctx.dir, "probe.sofa")
    # without failure, twice
    obj = w.new(part)
    before = content(obj)
    names = None
    with faults.Faults(package) as f:
        first = outcome(call(fn, sf, obj, w.file, w.path), sf)
    names = f.names
    after = content(obj)
    later = observe(ctx, obj, probe)
    again = w.new(part)
    call(fn, sf, again, w.file, w.path)
    second = outcome(call(fn, sf, again, w.file, w.path), sf)
    after2 = content(again)
    later_before = observe(ctx, w.new(part), probe)
    ctx.state(op, name, len(names))
    n = 0
    while True:
        kinds = KINDS if both else [KINDS[(2 * n + part) % 5],
                                    KINDS[(2 * n + part + 2) % 5]]
        if op == "write" and not both:
            kinds = kinds[:1]
        fired = False
        for kind in kinds:
            obj = w.new(part)
            ctx.step(2)
            flt = faults.Faults(package, n, ERRORS[kind]())
            with flt:
                out = call_any(fn, sf, obj, w.file, w.path)
            if not flt.fired:
                break
            fired = True
            ctx.trace()
            info = {"operation": op, "object": name, "failing call": n,
                    "function": flt.name, "failure": kind}
            ctx.state(op, name, n, kind)
            now = content(obj)
            if out.ok:
                ctx.require(undated(outcome(out, sf)) == undated(first)
                            and undated(now) == undated(after),
                            "the failure was not reported: %r" % out, **info)
                ctx.outcome("harmless failure")
            else:
                ctx.outcome("reported")
            ctx.require(undated(now[0]) in (undated(before[0]),
                                            undated(after[0])),
                        "the object was changed by the failed operation: %s"
                        % ref.diff(before[0], now[0]), **info)
            ctx.require(now[1] == before[1] or now[1] == after[1],
                        "protection is %s" % now[1], **info)
            ctx.require(w.bytes() == data, "the file with the data was "
                        "changed", **info)
            done = undated(now[0]) != undated(before[0])
            if both or kind == kinds[0]:
                seen = undated(observe(ctx, obj, probe))
                want = undated(later if done else later_before)
                ctx.require(seen == want, "later behaviour differs: %r" % [
                    b for a, b in zip(want, seen) if a != b][:1], **info)
            rep = outcome(call(fn, sf, obj, w.file, w.path), sf)
            ctx.require(undated(rep) == undated(second if done else first)
                        and undated(content(obj)) == undated(
                            after2 if done else after),
                        "repeating the operation gives %r instead of %r" % (
                            rep, second if done else first), **info)
        if not fired:
            break
        n += 1
    ctx.sample(case)


def call_any(fn, *args):
    """call that also returns interruptions."""
    from ..engine import Out
    try:
        return call(fn, *args)
    except KeyboardInterrupt as e:
        return Out(None, e, [], "")
