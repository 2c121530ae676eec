"""C29 released files: reading, writing, streaming, inspecting and updating
are run over all kinds of files and outcomes and with every single call into
the netCDF library, the operating system and the web client failing; the open
files of the process and the temporary folder are looked at as soon as the
operation has ended, while the exception is still alive and without garbage
collection."""
import gc
import itertools
import os
import tempfile

import numpy as np

from .. import fixture, model, nc, objs, ref, web
from ..faults import Faults
from . import c03, c25

PROPERTY = "C29"
TECHNIQUE = ("exhaustive fault injection: every operation x kind of file x "
             "each single failing call into the netCDF library, operating "
             "system and web client, executed on the real code; open files "
             "are monitored in /proc/self/fd")
ERRORS = [RuntimeError, OSError, MemoryError, KeyboardInterrupt]
CONVS = [["GeneralTF", "2.0"], ["SimpleHeadphoneIR", "1.0"],
         ["GeneralSOS", "1.0"], ["GeneralFIR-E", "2.0"]]
DAMAGE = ["missing", "folder", "empty", "text", "magic", "classic", "bare",
          "unknown", "version", "deprecated", "wrong type", "wrong shape",
          "wrong value", "no variables"]
WRONG = [["ListenerPosition", ["ramp", [5, 3]]],
         ["SourcePosition", ["ramp", [2, 4]]], ["GLOBAL_Title", ["n", 1]],
         ["GLOBAL_RoomType", ["s", "kitchen"]],
         ["EmitterPosition", ["ramp", [2, 2, 2, 2]]]]
ENDS = ["normal", "error", "interrupt", "unknown entry", "unknown dimension",
        "return", "generator", "inspect", "inspect file", "inspect nowhere",
        "exit", "nested", "read inside", "write inside", "again", "all"]


def BOUNDS(tier):
    big = tier == "thorough"
    return {"errors": [e.__name__ for e in ERRORS],
            "failing call": "each call" + ("" if big else ", error kinds in "
                                           "turn"),
            "kinds of files": len(DAMAGE) + len(fixture.SPEC),
            "truncations": 256 if big else 48,
            "damaged blocks": "each 64 bytes" if big else "64 bytes at "
            "every 512", "ends of a stream": ENDS,
            "update": "each request x each failure, each local call"}


def cases(tier):
    big = tier == "thorough"
    out = [["files", c] for c in list(fixture.SPEC)]
    out += [["bad", d] for d in DAMAGE]
    out += [["truncated", c, i, 256 if big else 48] for c in CONVS
            for i in range(8)]
    out += [["damaged", c, i, 64 if big else 512] for c in CONVS
            for i in range(8)]
    out += [["write", c] for c in CONVS]
    out += [["stream", c, e] for c in CONVS for e in ENDS]
    for op in OPS:
        for c in CONVS if big else CONVS[:2]:
            out += [["fault", op, c, i, 8, big] for i in range(8)]
    out += [["web", p, i] for p in ("std1", "dep2") for i in
            ("absent", "std2", "dep1")]
    out += [["update", p, i, big] for p in ("std1", "dep2") for i in
            ("absent", "std2", "dep1")]
    return out


def files_open():
    """Regular files, folders and sockets this process has open."""
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if target.startswith(("/dev/null", "/proc/", "pipe:")):
            continue
        out[int(fd)] = target
    return out


class Box:
    """Runs one operation and looks at the process right after it."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.tmp = os.path.join(ctx.dir, "tmp")
        self.work = os.path.join(ctx.dir, "box")
        for d in (self.tmp, self.work):
            os.makedirs(d, exist_ok=True)

    def path(self, name):
        return os.path.join(self.work, name)

    def run(self, fn, info, faults=None, web_update=False):
        ctx = self.ctx
        ctx.step()
        old = tempfile.tempdir, os.environ.get("TMPDIR")
        tempfile.tempdir = os.environ["TMPDIR"] = self.tmp
        before = files_open()
        seen = {}
        enabled = gc.isenabled()
        gc.collect() if not hasattr(self, "clean") else None
        self.clean = True
        gc.disable()
        exc, value = None, None

        def look(e):
            seen["open"] = files_open()
            seen["tmp"] = os.listdir(self.tmp)

        import contextlib
        import io
        import warnings
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with contextlib.redirect_stdout(io.StringIO()):
                    try:
                        if faults is None:
                            value = fn(look) if web_update else fn()
                        else:
                            with faults:
                                value = fn(look) if web_update else fn()
                    except (Exception, KeyboardInterrupt, SystemExit) as e:
                        exc = e
                        if not seen:
                            look(e)
            if not seen:
                look(None)
        finally:
            if enabled:
                gc.enable()
            tempfile.tempdir = old[0]
            if old[1] is None:
                os.environ.pop("TMPDIR", None)
            else:
                os.environ["TMPDIR"] = old[1]
        left = sorted(t for fd, t in seen["open"].items()
                      if before.get(fd) != t)
        if left or seen["tmp"]:
            what = "%s after %s" % (
                "files left open: %s" % left if left else
                "temporary files left: %s" % seen["tmp"],
                "success" if exc is None else repr(exc))
            if faults is not None and faults.fired:
                what += ", failing call %d (%s)" % (faults.at, faults.name)
            ctx.fail(what, **info)
        if exc is not None:
            exc.__traceback__ = None
        ctx.outcome("success" if exc is None else type(exc).__name__)
        return exc, value


# -- operations ------------------------------------------------------------
def stream_all(sf, path):
    with sf.SofaStream(path) as s:
        for name in ("GLOBAL_Title", "ListenerPosition",
                     "SourcePosition_Units"):
            getattr(s, name)
        s.list_dimensions
        s.get_dimension("M")
        s.inspect()
    return True


OPS = {
    "construct": lambda sf, c, o, p: sf.Sofa(c[0], version=c[1]),
    "list": lambda sf, c, o, p: sf.list_conventions(),
    "write": lambda sf, c, o, p: sf.write_sofa(p, o),
    "read": lambda sf, c, o, p: sf.read_sofa(p, verbose=False),
    "read unverified": lambda sf, c, o, p: sf.read_sofa(p, False, True),
    "netcdf": lambda sf, c, o, p: sf.read_sofa_as_netcdf(p),
    "stream": lambda sf, c, o, p: stream_all(sf, p),
    "inspect": lambda sf, c, o, p: o.inspect(p[:-5] + ".txt"),
    "verify": lambda sf, c, o, p: o.verify(),
}


def valid(ctx, conv, mask=3):
    sizes = {"M": 2, "R": 1, "E": 1, "N": 6}
    return objs.realise(ctx.sf, {"conv": conv, "sizes": {
        k: sizes[k] for k in objs.defining(objs.conv_of(*conv))}})


def good_file(box, conv, name="good.sofa", **kw):
    path = box.path(name)
    attrs, dims, items = c03.build(dict({"conv": list(conv)[:2]}, **kw))
    nc.write(path, attrs, dims, items)
    return path


def run(case, ctx):
    box = Box(ctx)
    # load everything that is loaded lazily
    box.run(lambda: ctx.sf.Sofa("GeneralTF"), {})
    try:
        globals()["do_" + case[0]](ctx, box, *case[1:])
        ctx.trace()
    finally:
        for base, _, files in os.walk(box.work):
            for f in files:
                os.remove(os.path.join(base, f))
    ctx.sample(case)


def readers(ctx, box, path, info):
    """All ways to read a file."""
    sf = ctx.sf
    out = []
    for verify in (True, False, "auto"):
        for verbose in (True, False):
            ctx.state(repr(info), "read", verify, verbose)
            out.append(box.run(lambda: sf.read_sofa(path, verify, verbose),
                               dict(info, read=[verify, verbose]))[0])
    ctx.state(repr(info), "others")
    out.append(box.run(lambda: sf.read_sofa_as_netcdf(path), info)[0])
    out.append(box.run(lambda: stream_all(sf, path), info)[0])
    return out


def library_leaks(ctx, path):
    """Does the netCDF library itself keep the file open?  (Looked at in an
    own process, the library can not recover from it.)"""
    import netCDF4
    pid = os.fork()
    if pid == 0:
        code = 2
        try:
            before = files_open()
            try:
                with netCDF4.Dataset(path) as f:
                    for v in f.variables.values():
                        v[...]
            except Exception:  # noqa: BLE001
                pass
            after = files_open()
            code = int(any(before.get(fd) != t for fd, t in after.items()))
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if status:
        ctx.outcome("library keeps or can not handle the damaged file")
    return bool(status)


def do_files(ctx, box, conv):
    path = good_file(box, conv)
    readers(ctx, box, path, {"file": conv})
    os.remove(path)


def do_bad(ctx, box, kind):
    path = box.path("bad.sofa")
    attrs, dims, items = c03.build({"conv": ["GeneralFIR", "1.0"]})
    if kind == "missing":
        pass
    elif kind == "folder":
        path = box.path("folder.sofa")
        os.makedirs(path, exist_ok=True)
    elif kind in ("empty", "text", "magic"):
        with open(path, "wb") as f:
            f.write({"empty": b"", "text": b"some text\n" * 99,
                     "magic": b"\x89HDF\r\n\x1a\n" + b"\0" * 999}[kind])
    elif kind == "classic":
        nc.write(path, attrs, dims, items, "NETCDF3_CLASSIC")
    else:
        if kind == "bare":
            attrs = {"Title": "no SOFA file"}
        elif kind == "unknown":
            attrs["SOFAConventions"] = "Unknown"
        elif kind == "version":
            attrs["SOFAConventionsVersion"] = "77.0"
        elif kind == "deprecated":
            attrs["SOFAConventions"] = "MultiSpeakerBRIR"
        elif kind == "no variables":
            items = []
        elif kind.startswith("wrong"):
            for it in items:
                if kind == "wrong shape" and it[0] == "SourcePosition":
                    it[2], it[3] = "MN", np.zeros((2, 6))
                if kind == "wrong type" and it[0] == "SourcePosition":
                    it[4]["Units"] = np.array([1.0, 2.0])
            if kind == "wrong value":
                attrs["RoomType"] = "kitchen"
        nc.write(path, attrs, dims, items)
    errors = readers(ctx, box, path, {"file": kind})
    ctx.require(kind in ("classic", "no variables", "version", "bare",
                         "deprecated") or
                any(e is not None for e in errors),
                "no reader refused the file", file=kind)


def do_truncated(ctx, box, conv, part, count):
    path = good_file(box, conv)
    with open(path, "rb") as f:
        data = f.read()
    for n in range(part, count, 8):
        cut = len(data) * n // count
        bad = box.path("cut%d.sofa" % n)
        with open(bad, "wb") as f:
            f.write(data[:cut])
        if not library_leaks(ctx, bad):
            readers(ctx, box, bad, {"file": conv, "cut": cut})
        os.remove(bad)


def do_damaged(ctx, box, conv, part, every):
    path = good_file(box, conv)
    with open(path, "rb") as f:
        data = f.read()
    for n, pos in enumerate(range(0, len(data), every)):
        if n % 8 != part:
            continue
        bad = box.path("damaged%d.sofa" % n)
        with open(bad, "wb") as f:
            f.write(data[:pos] + b"\xa5" * 64 + data[pos + 64:])
        if library_leaks(ctx, bad):
            os.remove(bad)
            continue
        info = {"file": conv, "damaged": pos}
        ctx.state(repr(info))
        box.run(lambda: ctx.sf.read_sofa(bad, False, False), info)
        box.run(lambda: ctx.sf.read_sofa_as_netcdf(bad), info)
        box.run(lambda: stream_all(ctx.sf, bad), info)
        os.remove(bad)


def do_write(ctx, box, conv):
    sf = ctx.sf
    os.makedirs(box.path("taken.sofa"), exist_ok=True)
    targets = ["out.sofa", "none/out.sofa", "taken.sofa", "out",
               "/proc/nothing/out.sofa", "out.sofa"]
    for k in (0, 1, 2):
        for wrong in itertools.permutations(WRONG, k):
            for t in targets:
                for compression in (4, 0):
                    obj = valid(ctx, conv)
                    obj.protected = False
                    for name, val in wrong:
                        setattr(obj, name, ref.make(val))
                    obj.protected = True
                    info = {"object": conv, "wrong": wrong, "target": t}
                    ctx.state(repr(info), compression)
                    exc, _ = box.run(lambda: sf.write_sofa(
                        os.path.join(box.work, t), obj, compression), info)
                    ctx.require(exc is not None or not wrong,
                                "invalid object was written", **info)
    for compression in (99, -5, "x", None):
        obj = valid(ctx, conv)
        box.run(lambda: sf.write_sofa(box.path("out.sofa"), obj,
                                      compression), {
            "object": conv, "compression": compression})
        exc, _ = box.run(lambda: sf.write_sofa(box.path("out.sofa"), obj),
                         {"object": conv})
        ctx.require(exc is None, "writing again raised %r" % exc)


class Stop(Exception):
    pass


def do_stream(ctx, box, conv, end):
    sf = ctx.sf
    path = good_file(box, conv)
    other = good_file(box, CONVS[0], "other.sofa")
    c = objs.conv_of(*conv)
    names = list(c) if end == "all" else [
        "GLOBAL_Title", "ListenerPosition", "SourcePosition_Type"]

    def body(n):
        with sf.SofaStream(path) as s:
            for name in names[:n]:
                v = getattr(s, name)
                if not isinstance(v, str):
                    v[:]
            if end == "error":
                raise Stop()
            if end == "interrupt":
                raise KeyboardInterrupt()
            if end == "exit":
                raise SystemExit()
            if end == "unknown entry":
                s.NoEntry
            if end == "unknown dimension":
                s.get_dimension("X")
            if end == "return":
                return n
            if end == "inspect":
                s.inspect()
            if end == "inspect file":
                s.inspect(box.path("report.txt"))
            if end == "inspect nowhere":
                s.inspect(box.path("none/report.txt"))
            if end == "nested":
                with sf.SofaStream(other) as t:
                    with sf.SofaStream(path) as u:
                        t.GLOBAL_Title, u.GLOBAL_Title
                        raise Stop()
            if end == "read inside":
                sf.read_sofa(path, verify=False, verbose=False)
                sf.read_sofa(other, verify=False, verbose=False)
                sf.read_sofa(box.path("none.sofa"))
            if end == "write inside":
                sf.write_sofa(box.path("third.sofa"), valid(ctx, CONVS[0]))
                sf.write_sofa(box.path("third.sofa"), None)

    def again():
        s = sf.SofaStream(path)
        for _ in range(3):
            with s:
                s.GLOBAL_Title
        with s:
            raise Stop()

    def generator():
        def values():
            with sf.SofaStream(path) as s:
                yield s.GLOBAL_Title
                yield s.GLOBAL_DataType
        for v in values():
            break
        g = values()
        next(g)
        g.close()
        list(values())

    fn = {"again": lambda n: again(), "generator": lambda n: generator()}.get(
        end, body)
    for n in range(len(names) + 1):
        ctx.state(tuple(conv), end, n)
        exc, _ = box.run(lambda: fn(n), {"stream": conv, "end": end, "n": n})
        want = {"error": Stop, "interrupt": KeyboardInterrupt,
                "exit": SystemExit, "unknown entry": AttributeError,
                "unknown dimension": ValueError, "nested": Stop,
                "again": Stop, "inspect nowhere": OSError,
                "read inside": ValueError, "write inside": Exception}
        ctx.require(isinstance(exc, want[end]) if end in want
                    else exc is None, "stream ended with %r" % exc,
                    stream=conv, end=end)
    for p in (path, other):
        os.remove(p)


def do_fault(ctx, box, op, conv, part, parts, big):
    """Each external call fails in turn."""
    sf = ctx.sf
    package = os.path.dirname(sf.__file__)
    path = good_file(box, conv, "fault.sofa")
    pristine = open(path, "rb")
    data = pristine.read()
    pristine.close()
    obj = valid(ctx, conv)
    count = Faults(package)
    exc, _ = box.run(lambda: OPS[op](sf, conv, obj, path), {"op": op}, count)
    ctx.require(exc is None, "%s raised %r" % (op, exc), object=conv)
    ctx.require(count.n > 0 or op == "verify",
                "no call was observed", op=op)
    for k in range(part, count.n, parts):
        for error in ERRORS if big else [ERRORS[k % len(ERRORS)]]:
            info = {"op": op, "object": conv, "call": k,
                    "error": error.__name__}
            ctx.state(op, tuple(conv), k, error.__name__)
            obj = valid(ctx, conv)
            with open(path, "wb") as f:
                f.write(data)
            f = Faults(package, k, error("injected"))
            box.run(lambda: OPS[op](sf, conv, obj, path), info, f)
            ctx.trace()
            if not f.fired:
                continue
            # the same file can be used again
            exc, _ = box.run(lambda: sf.write_sofa(path, obj), info)
            ctx.require(exc is None, "writing after the failure raised %r"
                        % exc, **info)
            if k % 16 == part or big:
                exc, _ = box.run(lambda: sf.read_sofa(path, verbose=False),
                                 info)
                ctx.require(exc is None, "reading after the failure raised "
                            "%r" % exc, **info)


def sets(pub, inst):
    names = c25.NAMES
    return ({names[0]: pub, names[1]: "std1"},
            {names[0]: inst, names[1]: "absent"})


def do_web(ctx, box, pub, inst):
    """Each request fails in each way; all answers at the prompt."""
    p, i = sets(pub, inst)
    sf = ctx.sf
    n = None
    k = -1
    while n is None or k < n:
        for kind in web.FAULTS if k >= 0 else ["none"]:
            for answer in ("y", "n", "eof", "interrupt"):
                if kind != "none" and answer != "y":
                    continue
                path = os.path.join(ctx.dir, "install")
                c25.install(path, i)
                site = web.Site(c25.published(p), {k: kind}, k % 2)
                info = {"published": p, "installed": i, "request": k,
                        "failure": kind, "answer": answer}
                ctx.state(repr(info))
                _, r = box.run(lambda look: web.update(
                    sf, site, path, False, answer, look), info,
                    web_update=True)
                if kind == "none" and answer == "y":
                    ctx.require(r.exc is None, "update raised %r" % r.exc,
                                **info)
                    n = len(r.log)
                ctx.outcome("update: " + ("success" if r.exc is None
                                          else type(r.exc).__name__))
                ctx.trace()
                remove(path)
        k += 1


def do_update(ctx, box, pub, inst, big):
    """Each local call of an update fails."""
    p, i = sets(pub, inst)
    sf = ctx.sf
    package = os.path.dirname(sf.__file__)
    n, k = None, -1
    path = os.path.join(ctx.dir, "install")
    while n is None or k < n:
        for error in ERRORS if big else [ERRORS[k % len(ERRORS)]]:
            c25.install(path, i)
            site = web.Site(c25.published(p))
            f = Faults(package, None if k < 0 else k, error("injected"))
            info = {"published": p, "installed": i, "call": k,
                    "error": error.__name__}
            ctx.state(repr(info))
            _, r = box.run(lambda look: web.update(
                sf, site, path, True, "y", look), info, f, web_update=True)
            if k < 0:
                n = f.n
                ctx.require(r.exc is None and n > 10, "update raised %r"
                            % r.exc, **info)
            ctx.outcome("update: " + ("success" if r.exc is None
                                      else type(r.exc).__name__))
            ctx.trace()
            remove(path)
        k += 1


def remove(path):
    for base, dirs, files in os.walk(path, topdown=False):
        for f in files:
            os.remove(os.path.join(base, f))
        for d in dirs:
            os.rmdir(os.path.join(base, d))
    if os.path.isdir(path):
        os.rmdir(path)
