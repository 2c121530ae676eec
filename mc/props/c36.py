"""C36 side effects: all public operations, succeeding, refused, answered in
every way or failing at any call that leaves the package, run in a process
whose settings, files and network are watched; everything an operation was not
asked to change has to be as before."""
import contextlib
import decimal
import errno
import gc
import io
import locale
import logging
import os
import pathlib
import random
import signal
import socket
import sys
import tempfile
import threading
import time
import warnings

import numpy as np

from .. import faults, fixture, model, ref, web
from . import c25, c32

PROPERTY = "C36"
TECHNIQUE = ("exhaustive enumeration of operations, pairs of operations and "
             "failing external calls on the real code in a process whose "
             "settings, files and network are monitored")

AMBIENT = ["default", "custom", "errors"]
ERRORS = [lambda: OSError(errno.EIO, "input/output error"),
          KeyboardInterrupt, MemoryError,
          lambda: RuntimeError("NetCDF: HDF error"),
          lambda: UserWarning("raised as an error")]
WATCHED = ["builtins", "os", "os.path", "io", "sys", "json", "glob", "re",
           "shutil", "pathlib", "tempfile", "datetime", "time", "numpy",
           "numpy.testing", "numpy.ma", "netCDF4", "requests", "bs4",
           "requests.adapters", "requests.sessions", "packaging.version",
           "platform", "warnings", "copy", "locale"]
CLASSES = [("json", "JSONEncoder"), ("json", "JSONDecoder"),
           ("requests", "Session"), ("requests.adapters", "HTTPAdapter"),
           ("netCDF4", "Dataset"), ("netCDF4", "Variable"),
           ("numpy", "ndarray"), ("pathlib", "Path"), ("io", "StringIO")]
NETWORK = ("socket.connect", "socket.getaddrinfo", "socket.bind",
           "socket.gethostbyname", "socket.sendto", "urllib.Request",
           "http.client.connect", "webbrowser.open", "ftplib.connect",
           "smtplib.connect")
PROCESSES = ("subprocess.Popen", "os.system", "os.exec", "os.fork",
             "os.forkpty", "os.posix_spawn", "os.spawn", "os.kill",
             "os.killpg", "signal.pthread_kill")
PUBLISHED = {"Aa_1.0": "std2", "AaB_2.0": "dep1", "Zz_0.3": "std1"}
INSTALLED = {"Aa_1.0": "std1", "AaB_2.0": "std1", "Zz_0.3": "absent"}

_log = []
_watching = [False]
_hooked = [0]


def audit(event, args):
    if not _watching[0]:
        return
    if event in NETWORK or event in PROCESSES:
        _log.append((event, repr(args)[:100]))
    elif event == "open" and isinstance(args[0], (str, bytes)):
        mode, flags = args[1], args[2] or 0
        if isinstance(mode, str) and set(mode) & set("wax+") \
                or flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            _log.append(("write", os.path.abspath(os.fsdecode(args[0]))))


def names():
    out = {}
    for m in WATCHED:
        mod = sys.modules.get(m)
        for k, v in vars(mod).items() if mod is not None else ():
            if callable(v):
                out[m + "." + k] = v
    for m, c in CLASSES:
        for k, v in vars(getattr(sys.modules[m], c)).items():
            if callable(v):
                out[m + "." + c + "." + k] = v
    # (replaced by this check, see one)
    for k in ("warnings.showwarning", "requests.adapters.HTTPAdapter.send"):
        del out[k]
    return out


def process():
    """Settings of this process that an operation has to leave alone."""
    mask = os.umask(0)
    os.umask(mask)
    rnd = np.random.get_state()
    return {
        "current folder": folder(), "environment": dict(os.environ),
        "umask": mask,
        "filters of warnings": [
            (f[0], getattr(f[1], "pattern", f[1]), f[2],
             getattr(f[3], "pattern", f[3]), f[4]) for f in warnings.filters],
        "display of warnings": warnings.showwarning,
        "format of warnings": warnings.formatwarning,
        "numpy errors": np.geterr(), "numpy error handler": np.geterrcall(),
        "numpy printing": repr(np.get_printoptions()),
        "numpy random state": (rnd[1].tobytes(),) + tuple(rnd[2:]),
        "numpy buffer": np.getbufsize(),
        "random state": random.getstate(),
        "locale": locale.setlocale(locale.LC_ALL),
        "signals": {s: signal.getsignal(s) for s in signal.Signals},
        "search path": list(sys.path), "stdin": sys.stdin,
        "stdout": sys.stdout, "stderr": sys.stderr,
        "hooks": (sys.excepthook, sys.displayhook, sys.gettrace(),
                  sys.getprofile(), sys.unraisablehook,
                  threading.excepthook, builtins_input()),
        "import hooks": (list(sys.meta_path), list(sys.path_hooks)),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "threads": [t.name for t in threading.enumerate()],
        "time-out": socket.getdefaulttimeout(),
        "logging": (logging.root.level, list(logging.root.handlers),
                    logging.root.manager.disable),
        "garbage collection": (gc.isenabled(), gc.get_threshold(),
                               gc.get_debug()),
        "decimal": repr(decimal.getcontext()),
        "time zone": time.tzname, "bytecode": sys.dont_write_bytecode,
        "arguments": list(sys.argv),
        "folder for temporary files": tempfile.gettempdir(),
        "timer": signal.getitimer(signal.ITIMER_REAL)[1],
    }


def folder():
    try:
        return os.getcwd()
    except OSError:
        return "removed"


def builtins_input():
    import builtins
    return builtins.input


def tree(*folders):
    out = {}
    for folder in folders:
        for base, dirs, files in os.walk(folder):
            if "__pycache__" in dirs:
                dirs.remove("__pycache__")
            out[base] = os.lstat(base).st_mode
            for f in files:
                p = os.path.join(base, f)
                s = os.lstat(p)
                out[p] = (s.st_mode, s.st_size, s.st_mtime_ns, s.st_ino)
    return out


class World:
    def __init__(self, ctx, ambient):
        self.ctx, self.sf, self.ambient = ctx, ctx.sf, ambient
        self.root = ctx.root
        self.package = os.path.dirname(ctx.sf.__file__)
        self.folders = {}
        for f in ("home", "current", "temporary", "target", "data"):
            self.folders[f] = os.path.join(self.root, f)
            os.makedirs(self.folders[f])
        os.chdir(self.folders["current"])
        for k in ("HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME"):
            os.environ[k] = self.folders["home"]
        os.environ["TMPDIR"] = self.folders["temporary"]
        tempfile.tempdir = None
        tempfile.gettempdir()
        if not _hooked[0]:
            sys.addaudithook(audit)
            _hooked[0] = 1
        self.file = os.path.join(self.folders["data"], "data.sofa")
        self.out = os.path.join(self.folders["target"], "out.sofa")
        self.conventions = os.path.join(self.folders["data"], "conventions")
        self.objects = {}
        with warnings.catch_warnings(record=True):
            warnings.simplefilter("always")
            for name in c32.OBJECTS:
                conv, version, ops = c32.OBJECTS[name]
                pair = model.Pair(ctx, conv, version)
                for op in ops:
                    pair.apply(op)
                self.objects[name] = pair.obj
            self.sf.write_sofa(self.file, self.objects["valid"])
            with open(os.path.join(self.folders["data"], "text.sofa"),
                      "w") as f:
                f.write("text")
        self.bystander = self.objects["valid"].copy()
        self.seen = ref.snapshot(self.bystander)
        self.dirty = True
        settings(ambient)
        # (first use loads modules)
        process(), names()
        self.names = names()

    def reset(self):
        """Files as before any operation."""
        if not self.dirty:
            return
        self.dirty = False
        for folder in ("home", "current", "temporary", "target"):
            for base, dirs, files in os.walk(self.folders[folder],
                                             topdown=False):
                for f in files:
                    os.remove(os.path.join(base, f))
                for d in dirs:
                    os.rmdir(os.path.join(base, d))
        for base, dirs, files in os.walk(self.conventions, topdown=False):
            for f in files:
                os.remove(os.path.join(base, f))
            for d in dirs:
                os.rmdir(os.path.join(base, d))
        if os.path.isdir(self.conventions):
            os.rmdir(self.conventions)
        c25.install(self.conventions, INSTALLED)

    def site(self, fault=None):
        return web.Site(c25.published(PUBLISHED), fault)


def settings(ambient):
    """Settings the user has made before."""
    warnings.resetwarnings()
    warnings.simplefilter("always")
    sys.setrecursionlimit(2000)
    if ambient == "default":
        return
    warnings.filterwarnings("ignore", "something", DeprecationWarning, "mod")
    if ambient == "errors":
        warnings.filterwarnings("error", category=UserWarning)
        np.seterr(all="raise")
        return
    os.environ["LANG"] = "xx"
    os.umask(0o027)
    np.seterr(over="ignore", invalid="print")
    np.set_printoptions(threshold=7, precision=3, suppress=True, linewidth=60)
    np.random.seed(7)
    random.seed(5)
    with contextlib.suppress(locale.Error):
        locale.setlocale(locale.LC_ALL, "C")
    socket.setdefaulttimeout(17.)
    logging.root.setLevel(logging.ERROR)
    decimal.getcontext().prec = 9
    gc.disable()
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.signal(signal.SIGTERM, lambda *_: None)
    sys.setswitchinterval(0.003)
    sys.path.append("/nonexistent")


class Keys(io.TextIOBase):
    """The user types an answer."""

    def __init__(self):
        self.answer = None

    def readline(self, *_):
        if self.answer == "interrupt":
            raise KeyboardInterrupt()
        return "" if self.answer is None else self.answer + "\n"


KEYS = Keys()


def streaming(w, path, name):
    with w.sf.SofaStream(path) as s:
        return getattr(s, name)


def leaving(w):
    """A stream that is left by an error of the user."""
    with w.sf.SofaStream(w.file) as s:
        s.list_dimensions
        raise ValueError(s.GLOBAL_Title)


def updating(answer, where, assume=False, fault=None):
    def run(w, o):
        KEYS.answer = answer
        kw = {} if where == "installed" else {
            "conventions_path": w.conventions}
        w.requests = w.site(fault)
        w.sf.update_conventions(assume_yes=assume, **kw)
    return run


def files(*paths):
    """Files an operation may write."""
    return lambda w: {os.path.join(w.folders[a], b) for a, b in paths}


OUT = files(("target", "out.sofa"))
TEXT = files(("target", "out.txt"))
# operation: (function, files it may write or None, object)
OPS = {k: ((lambda w, o, f=f: f(w.sf, o, w.file, w.out)), None)
       for k, f in c32.OPS.items()
       if k.split()[0] not in ("write", "stream", "inspect")}
OPS.update({
    "write": (lambda w, o: w.sf.write_sofa(w.out, o), OUT),
    "write plain": (lambda w, o: w.sf.write_sofa(w.out, o, 0), OUT),
    "write path": (lambda w, o: w.sf.write_sofa(pathlib.Path(w.out), o), OUT),
    "write suffix": (lambda w, o: w.sf.write_sofa(w.out[:-5], o), OUT),
    "write relative": (lambda w, o: w.sf.write_sofa("rel.sofa", o),
                       files(("current", "rel.sofa"))),
    "write nowhere": (lambda w, o: w.sf.write_sofa(os.path.join(
        w.folders["target"], "missing", "x.sofa"), o), None),
    "write level": (lambda w, o: w.sf.write_sofa(w.out, o, 10), None),
    "write no object": (lambda w, o: w.sf.write_sofa(w.out, {"a": 1}), None),
    "overwrite": (lambda w, o: (w.sf.write_sofa(w.out, o),
                                w.sf.write_sofa(w.out, o)), OUT),
    "read missing": (lambda w, o: w.sf.read_sofa(w.out), None),
    "read text": (lambda w, o: w.sf.read_sofa(os.path.join(
        w.folders["data"], "text.sofa")), None),
    "read folder": (lambda w, o: w.sf.read_sofa(w.folders["data"]), None),
    "netcdf missing": (lambda w, o: w.sf.read_sofa_as_netcdf(w.out), None),
    "read quiet": (lambda w, o: w.sf.read_sofa(w.file, verbose=False), None),
    "stream": (lambda w, o: [streaming(w, w.file, n)[0]
                             for n in ("GLOBAL_Title", "Data_IR",
                                       "SourcePosition_Units", "Words")],
               None),
    "stream unknown": (lambda w, o: streaming(w, w.file, "Unknown"), None),
    "stream missing": (lambda w, o: streaming(w, w.out, "Data_IR"), None),
    "stream left": (lambda w, o: leaving(w), None),
    "stream inspect": (lambda w, o: inspected(w), TEXT),
    "inspect": (lambda w, o: o.inspect(w.out[:-5] + ".txt", "ignore"), TEXT),
    "inspect print": (lambda w, o: o.inspect(issue_handling="print"), None),
    "inspect nowhere": (lambda w, o: o.inspect(os.path.join(
        w.folders["target"], "missing", "x.txt"), "ignore"), None),
    "construct unknown": (lambda w, o: w.sf.Sofa("Unknown"), None),
    "construct version": (lambda w, o: w.sf.Sofa(
        "GeneralFIR", version="77"), None),
    "info missing": (lambda w, o: o.info("missing"), None),
    "info entry": (lambda w, o: o.info("SourcePosition"), None),
    "dim missing": (lambda w, o: o.get_dimension("Z"), None),
    "add existing": (lambda w, o: o.add_variable(
        "SourcePosition", [1, 2], "double", "MC"), None),
    "add custom": (lambda w, o: o.add_variable(
        "Custom", np.ones((2, 2)), "double", "MQ"), None),
    "attribute data": (lambda w, o: o.add_attribute("Nothing_Units", "m"),
                       None),
    "assign unknown": (lambda w, o: setattr(o, "Unknown", 1), None),
    "assign read only": (lambda w, o: setattr(
        o, "GLOBAL_SOFAConventions", "x"), None),
    "delete mandatory": (lambda w, o: o.delete("GLOBAL_Title"), None),
    "equals other": (lambda w, o: w.sf.equals(o, w.bystander), None),
    "equals loud": (lambda w, o: w.sf.equals(w.bystander, o, True), None),
    "equals exclude": (lambda w, o: w.sf.equals(o, o, False, "DATE"), None),
    "equals wrong": (lambda w, o: w.sf.equals(o, o, False, "x"), None),
    "upgrade wrong": (lambda w, o: o.upgrade_convention("Unknown_1.0"), None),
    "missing quiet": (lambda w, o: o.add_missing(True, True, False), None),
    "print": (lambda w, o: (str(o), repr(o), print(o)), None),
})


def inspected(w):
    with w.sf.SofaStream(w.file) as s:
        s.inspect(w.out[:-5] + ".txt")


INSTALL = "conventions"
for a in ("y", "n", None, "interrupt"):
    for p in ("given", "installed"):
        OPS["update %s %s" % (p, a)] = (updating(a, p), (
            p if a == "y" else None))
OPS["update given assumed"] = (updating("n", "given", True), "given")
for n in range(5):
    OPS["update given request %d" % n] = (
        updating("y", "given", False, {n: "timeout"}), "given")
    OPS["update given page %d" % n] = (
        updating("y", "given", False, {n: "500"}), "given")

UNRELATED = ("construct", "list", "version", "read", "netcdf", "stream",
             "update")
UPDATES = sorted(o for o in OPS if o.startswith("update"))
MANY = 3


def BOUNDS(tier):
    big = tier == "thorough"
    return {"operations": sorted(OPS), "objects": sorted(c32.OBJECTS),
            "settings of the process": AMBIENT,
            "histories": "all pairs of operations" + (
                " x objects x settings" if big else " (one object, settings "
                "in turn)"),
            "failing call": "each external call" + (
                " x %d kinds" % len(ERRORS) if big else ", kinds in turn")}


def cases(tier):
    big = tier == "thorough"
    # (operations of similar costs side by side)
    out = []
    for n, a in enumerate(AMBIENT):
        for i in range(16):
            out.append(["faults", a, i, big])
    for n, op in enumerate(sorted(OPS)):
        for m, name in enumerate(sorted(c32.OBJECTS)):
            for k, a in enumerate(AMBIENT):
                if big or (name == "valid" and (n + k) % 3 == 0):
                    out.append(["pairs", a, op, name])
    return out


def run(case, ctx):
    ctx.isolated({"faults": failing, "pairs": pairs}[case[0]], case)
    ctx.sample(case)


def one(w, op, obj, info, at=None, error=None):
    """Run one operation and look at everything else; (fired, outcome)"""
    ctx = w.ctx
    fn, allowed = OPS[op]
    if allowed is None:
        ok = set()
    elif allowed == "given":
        ok = w.conventions
    elif allowed == "installed":
        ok = os.path.join(w.package, "sofa_conventions")
    else:
        ok = allowed(w)

    def permitted(path):
        if isinstance(ok, str):
            return path.startswith(ok + os.sep)
        return path in ok
    folders = list(w.folders.values()) + [w.package]
    original = web.requests.adapters.HTTPAdapter.send
    asked = []

    def send(adapter, request, **kw):
        asked.append(request.url)
        if not op.startswith("update"):
            raise web.requests.exceptions.ConnectionError("no network")
        return w.requests.send(adapter, request, **kw)
    before_files = tree(*folders)
    KEYS.answer = None
    stdin, stderr, stdout = sys.stdin, sys.stderr, sys.stdout
    sys.stdin, sys.stderr, sys.stdout = KEYS, io.StringIO(), io.StringIO()
    show, warned = warnings.showwarning, []
    warnings.showwarning = lambda *a, **k: warned.append(a[0])
    web.requests.adapters.HTTPAdapter.send = send
    before = process()
    before_names = dict(w.names, **{"HTTPAdapter.send": send})
    flt = faults.Faults(w.package, at, error)
    del _log[:]
    res = "ok"
    try:
        with flt if error is not None else contextlib.nullcontext():
            _watching[0] = True
            try:
                fn(w, obj)
            except (Exception, KeyboardInterrupt) as e:
                res = type(e).__name__
                e.__traceback__ = None
            finally:
                _watching[0] = False
        after, after_names = process(), names()
        after_names["HTTPAdapter.send"] = \
            web.requests.adapters.HTTPAdapter.__dict__["send"]
        shown = sys.stderr.getvalue() if sys.stderr is before["stderr"] \
            else ""
    finally:
        web.requests.adapters.HTTPAdapter.send = original
        warnings.showwarning = show
        sys.stdin, sys.stderr, sys.stdout = stdin, stderr, stdout
    ctx.step()
    info = dict(info, operation=op, result=res)
    if error is not None:
        info.update({"failing call": at, "function": flt.name,
                     "failure": repr(error)})
        if not flt.fired:
            w.dirty = True
            return False, res
    for k in before:
        ctx.require(before[k] == after[k], "%s changed from %r to %r" % (
            k, before[k], after[k]), **info)
    for k, v in before_names.items():
        ctx.require(after_names.get(k) is v, "%s was replaced or removed" % k,
                    **info)
    ctx.require(not shown, "error output: %r" % shown[:300], **info)
    after_files = tree(*folders)
    w.dirty = w.dirty or after_files != before_files
    for p in sorted(set(before_files) | set(after_files)):
        if before_files.get(p) == after_files.get(p):
            continue
        ctx.require(permitted(p), "%s was %s" % (
            os.path.relpath(p, w.root), "created" if p not in before_files
            else "removed" if p not in after_files else "changed"), **info)
        ctx.outcome("expected file")
        if p in after_files and p not in before_files \
                and isinstance(after_files[p], tuple):
            ctx.require(after_files[p][0] & 0o777 == 0o666 & ~before["umask"],
                        "permissions of %s are %o with umask %o" % (
                            os.path.relpath(p, w.root), after_files[p][0],
                            before["umask"]), **info)
    for event, arg in _log:
        if event == "write":
            inside = arg.startswith(w.root + os.sep) or arg == os.devnull
            ctx.require(inside, "%s was opened for writing" % arg, **info)
        else:
            ctx.require(False, "%s%s" % (event, arg), **info)
    if not op.startswith("update"):
        ctx.require(not asked, "requests %s" % asked, **info)
    else:
        ctx.require(all("/conventions/" in u for u in asked),
                    "requests %s" % asked, **info)
    ctx.require(ref.snapshot(w.bystander) == w.seen, "another object was "
                "changed", **info)
    ctx.outcome(res)
    return True, res


def failing(ctx, case):
    """Each external call fails."""
    _, ambient, part, big = case
    w = World(ctx, ambient)
    for n, op in enumerate(sorted(OPS)):
        if n % 16 != part or "installed y" in op and ambient != "default":
            continue
        for name in sorted(c32.OBJECTS):
            if name != "valid" and op.split()[0] in UNRELATED:
                continue
            if not big and name not in ("valid", "outdated"):
                w.reset()
                one(w, op, w.objects[name].copy(), {"object": name})
                continue
            at, k = 0, 0
            while True:
                errors = ERRORS if big else [ERRORS[(at + part) % 5]]
                fired = False
                for e in errors:
                    w.reset()
                    ctx.trace()
                    ctx.state(ambient, op, name, at, k)
                    fired, _ = one(w, op, w.objects[name].copy(),
                                   {"object": name, "settings": ambient},
                                   at, e())
                    if not fired:
                        break
                if not fired or not big and ambient != "default" \
                        and at > 30 and name != "valid":
                    break
                at += 1


def pairs(ctx, case):
    """All second operations after one operation."""
    _, ambient, first, name = case
    w = World(ctx, ambient)
    info = {"object": name, "settings": ambient}
    for second in sorted(OPS):
        w.reset()
        obj = w.objects[name].copy()
        one(w, first, obj, info)
        ctx.trace()
        ctx.state(ambient, first, second, name)
        one(w, second, obj, dict(info, first=first))
