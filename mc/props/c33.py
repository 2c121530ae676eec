"""C33 parallel use: an operation is interrupted at every line of the package
(first and last time it is reached) by a second thread that runs operations of
all kinds on other objects and files (completely, or up to each of its lines
while the first operation continues).  Results of both are compared with those
of undisturbed runs."""
import io
import os
import sys
import threading
import warnings

import numpy as np

from .. import model, ref
from . import c32

PROPERTY = "C33"
TECHNIQUE = ("systematic exploration of thread schedules of the real code "
             "under a controlled scheduler (switches at the lines of the "
             "package, one and two preemptions), results compared with "
             "undisturbed runs")
TOOL = 4
WAIT = 20

OBJECTS = {
    "valid": c32.OBJECTS["valid"],
    "invalid": c32.OBJECTS["invalid"],
    "headphone": c32.OBJECTS["incomplete"],
    "outdated": c32.OBJECTS["outdated"],
    "deprecated": c32.OBJECTS["deprecated"],
    # another object of the same convention with other custom entries
    "twin": ("GeneralFIR", "1.0", [
        ["set", "Data_IR", ["ramp", [3, 1, 2]]],
        ["add", "Mine", ["U", ["text", "b"]], "string", "PS"],
        ["add", "Words", ["ramp", [4]], "double", "T"],
        ["add", "Third", ["ramp", [5]], "double", "U"],
        ["attr", "Third_Units", ["s", "hertz"]]]),
}


def text(path):
    with open(path, encoding="utf-8") as f:
        return f.read()


def report(sf, o, p):
    o.inspect(p + ".txt", "ignore")
    return text(p + ".txt")


def saved(sf, o, p):
    sf.write_sofa(p + ".sofa", o)
    return model.file_dump(p + ".sofa")


def added(sf, o, p):
    o.add_variable("New", [1, 2], "double", "Q")
    o.add_attribute("New_Units", "metre")
    o.New = [4, 5, 6]
    return o.get_dimension("Q")


def replaced(sf, o, p):
    o.delete("Mine")
    o.add_variable("Mine", ["x"], "string", "VS")
    o.verify()


def stream(sf, p):
    out = []
    with sf.SofaStream(p) as s:
        for name in ("GLOBAL_Title", "SourcePosition", "SourcePosition_Units",
                     "Data_IR"):
            v = getattr(s, name)
            out.append(v if isinstance(v, str) else ref.canon(np.asarray(
                v[:])))
        s.list_dimensions
        out.append(s.get_dimension("M"))
        s.inspect()
    return out


# name: (object, operation(sf, object, folder/name, file that exists))
OPS = {
    "construct": ("valid", lambda sf, o, p, f: sf.Sofa("GeneralFIR")),
    "construct other": ("valid", lambda sf, o, p, f: sf.Sofa(
        "SimpleHeadphoneIR", mandatory=True)),
    "verify": ("valid", lambda sf, o, p, f: o.verify("return")),
    "verify twin": ("twin", lambda sf, o, p, f: o.verify()),
    "verify invalid": ("invalid", lambda sf, o, p, f: o.verify()),
    "verify deprecated": ("deprecated", lambda sf, o, p, f: o.verify(
        "print", "read")),
    "write": ("valid", lambda sf, o, p, f: saved(sf, o, p)),
    "write relative": ("valid", lambda sf, o, p, f: saved(
        sf, o, p)),
    "read relative": ("valid", lambda sf, o, p, f: sf.read_sofa(f)),
    "write twin": ("twin", lambda sf, o, p, f: saved(sf, o, p)),
    "read": ("valid", lambda sf, o, p, f: sf.read_sofa(f)),
    "netcdf": ("valid", lambda sf, o, p, f: sf.read_sofa_as_netcdf(f)),
    "stream": ("valid", lambda sf, o, p, f: stream(sf, f)),
    "inspect": ("valid", lambda sf, o, p, f: report(sf, o, p)),
    "add": ("headphone", lambda sf, o, p, f: added(sf, o, p)),
    "replace": ("twin", lambda sf, o, p, f: replaced(sf, o, p)),
    "missing": ("headphone", lambda sf, o, p, f: o.add_missing()),
    "upgrade": ("outdated", lambda sf, o, p, f: o.upgrade_convention(
        "SimpleFreeFieldHRIR_1.0")),
    "copy": ("twin", lambda sf, o, p, f: sf.equals(o, o.copy())),
    "differ": ("twin", lambda sf, o, p, f: sf.equals(o, sf.Sofa(
        "GeneralFIR"))),
    "info": ("twin", lambda sf, o, p, f: o.info("all")),
    "dimensions": ("valid", lambda sf, o, p, f: o.list_dimensions),
    "delete": ("valid", lambda sf, o, p, f: [
        o.delete("GLOBAL_History"), o.delete("GLOBAL_Title")]),
    "assign": ("twin", lambda sf, o, p, f: [
        setattr(o, "SourcePosition", [1, 2, 3]),
        setattr(o, "GLOBAL_Version", "1")]),
    "list": ("valid", lambda sf, o, p, f: sf.list_conventions()),
}
# what the second thread does
SECOND = {
    "objects": ["construct", "construct other", "verify twin",
                "verify invalid", "verify deprecated", "add", "replace",
                "missing", "upgrade", "differ", "info", "delete", "assign",
                "copy", "dimensions"],
    "files": ["write twin", "write relative", "read", "read relative", "netcdf",
              "stream", "inspect", "list"]}


def BOUNDS(tier):
    return {"first operation": sorted(OPS), "second thread": SECOND,
            "switch": "each line of the package reached by the first "
            "operation, " + ("first or last time, in two of the operations"
                             if tier != "thorough" else "first, last and every tenth time"),
            "preemptions": "1" if tier != "thorough" else "1 and 2 (the "
            "second thread stops at each of its lines, first time, while "
            "the first one ends)"}


def cases(tier):
    big = tier == "thorough"
    parts = 8 if big else 2
    out = [["one", a, b, i, parts, big] for a in OPS for b in SECOND
           for i in range(parts)]
    if big:
        out += [["two", a, b, i] for a in OPS for b in OPS
                for i in range(4)]
    return out


# --------------------------------------------------------------------------
class Streams(io.TextIOBase):
    """Standard output of each thread."""

    def __init__(self):
        self.text = {}

    def write(self, s):
        self.text.setdefault(threading.get_ident(), []).append(s)
        return len(s)


class Scheduler:
    """Runs tasks in two threads; only one of them runs at a time."""

    def __init__(self, package):
        self.dir = os.path.realpath(package) + os.sep
        self.points, self.count, self.where = {}, {}, {}
        self.trace = None
        self.hand = {}

    def line(self, code, line):
        if not code.co_filename.startswith(self.dir):
            return sys.monitoring.DISABLE
        me = threading.get_ident()
        name = self.names.get(me)
        if name is None:
            return None
        n = self.count[name] = self.count.get(name, -1) + 1
        if self.trace is not None and name == "A":
            self.trace.append((code.co_name, line))
        if self.points.get(name) == n:
            self.switch(name)
        return None

    def switch(self, name):
        self.switched.append(name)
        if name == "A":
            if self.points.get("B") is None:
                # no more switches
                sys.monitoring.set_events(TOOL, 0)
            # B runs until it ends or stops
            self.go["B"].set()
            if not self.stopped["B"].wait(WAIT if not self.late else 1):
                self.late = True           # B waits for something of A
        else:
            self.stopped["B"].set()
            self.go["B"].clear()
            self.go["B"].wait()

    def run(self, a, b=None, i=None, j=None):
        """Outcomes of a and b (b starts when a reaches its line event i)."""
        self.points = {"A": i, "B": j}
        self.count, self.switched, self.late = {}, [], False
        self.names = {}
        self.go = {"B": threading.Event()}
        self.stopped = {"B": threading.Event()}
        results = {}
        out, shown = Streams(), {}
        old = sys.stdout, warnings.showwarning, warnings.filters[:]

        def show(message, category, *args, **kwargs):
            if issubclass(category, UserWarning):
                shown.setdefault(threading.get_ident(), []).append(
                    str(message))

        def task(name, fns):
            me = threading.get_ident()
            if name == "B":
                self.go["B"].wait()
            self.names[me] = name
            for k, (key, fn) in enumerate(fns):
                try:
                    value, exc = fn(), None
                except Exception as e:  # noqa: BLE001
                    e.__traceback__ = None
                    value, exc = None, e
                results[name, key] = (
                    value, None if exc is None else (type(exc).__name__,
                                                     str(exc)),
                    tuple(shown.pop(me, [])),
                    "".join(out.text.pop(me, [])))
            self.names.pop(me, None)
            if name == "B":
                self.stopped["B"].set()

        mon = sys.monitoring
        sys.stdout, warnings.showwarning = out, show
        warnings.simplefilter("always")
        mon.use_tool_id(TOOL, "verif-schedules")
        mon.register_callback(TOOL, mon.events.LINE, self.line)
        mon.set_events(TOOL, mon.events.LINE)
        try:
            threads = [threading.Thread(target=task, args=("A", a),
                                        daemon=True)]
            if b is not None:
                threads.append(threading.Thread(
                    target=task, args=("B", b), daemon=True))
                threads[1].start()
            threads[0].start()
            threads[0].join(120)
            if b is not None:
                self.points["B"] = None
                self.go["B"].set()
                threads[1].join(120)
            if any(t.is_alive() for t in threads):
                raise RuntimeError("the threads do not end")
        finally:
            mon.set_events(TOOL, 0)
            mon.register_callback(TOOL, mon.events.LINE, None)
            mon.free_tool_id(TOOL)
            sys.stdout, warnings.showwarning = old[:2]
            warnings.filters[:] = old[2]
            warnings._filters_mutated()
        return results


class World:
    """Objects and files of one thread."""

    def __init__(self, ctx, who):
        self.ctx, self.who = ctx, who
        self.dir = os.path.join(ctx.dir, "thread" + who)
        os.makedirs(self.dir, exist_ok=True)
        self.file = os.path.join(self.dir, "data.sofa")
        self.base = {}
        for name, (conv, version, ops) in OBJECTS.items():
            pair = model.Pair(ctx, conv, version)
            for op in ops:
                pair.apply(op)
            self.base[name] = pair.obj
        if who == "B":
            # another convention than in the file of the first thread
            s = ctx.sf.Sofa("SimpleFreeFieldHRIR")
            s.Data_IR = np.ones((2, 2, 3))
            s.SourcePosition = [[1, 2, 3], [4, 5, 6]]
            s.add_variable("Words", [1, 2, 3], "double", "T")
        else:
            s = self.base["valid"]
        ctx.sf.write_sofa(self.file, s)

    def tasks(self, names):
        self.objects, out = {}, []
        sf = self.ctx.sf
        for n in names:
            o = self.objects[n] = self.base[OPS[n][0]].copy()
            p = os.path.join(self.dir, n.replace(" ", "-"))
            f = self.file
            if n.endswith("relative"):
                p, f = os.path.relpath(p), os.path.relpath(f)
            out.append((n, lambda n=n, o=o, p=p, f=f: OPS[n][1](
                sf, o, p, f)))
        return out

    def state(self, results):
        """Comparable outcome of all tasks."""
        out = {}
        sf = self.ctx.sf
        for n, o in self.objects.items():
            value, *rest = results[self.who, n]
            if isinstance(value, sf.Sofa):
                value = (ref.snapshot(value), bool(value.protected))
            out[n] = c32.undated((value if not callable(value) else None,
                                  rest, ref.snapshot(o), bool(o.protected)))
        return out

    def later(self):
        """Later behaviour of the objects."""
        out = {}
        for n, o in self.objects.items():
            r = []
            for mode in ("write", "read"):
                try:
                    r.append(o.copy().verify("return", mode))
                except Exception as e:  # noqa: BLE001
                    r.append((type(e).__name__, str(e)))
            try:
                r.append(self.ctx.sf.equals(o, o.copy(), False))
            except Exception as e:  # noqa: BLE001
                r.append((type(e).__name__, str(e)))
            out[n] = r
        return out


_alone = {}


def run(case, ctx):
    kind, a, b, part = case[:4]
    key = "worlds"
    if key not in _alone:
        _alone[key] = World(ctx, "A"), World(ctx, "B")
    wa, wb = _alone[key]
    names = SECOND[b] if kind == "one" else [b]
    sched = Scheduler(os.path.dirname(ctx.sf.__file__))

    def alone(w, who, ops):
        k = (who, tuple(ops))
        if k not in _alone:
            trace = sched.trace = []
            res = sched.run([(n, fn) for n, fn in w.tasks(ops)])
            sched.trace = None
            res = {(who, n): v for (_, n), v in res.items()}
            _alone[k] = w.state(res), w.later(), trace
        return _alone[k]

    want_a, later_a, trace_a = alone(wa, "A", [a])
    want_b, later_b, trace_b = alone(wb, "B", names)
    first, last = {}, {}
    for n, t in enumerate(trace_a):
        first.setdefault(t, n)
        last[t] = n
    where = set(first.values())
    if kind == "one" and case[5]:
        where |= set(last.values()) | set(range(0, len(trace_a), 10))
    elif kind == "one":
        # each line of the package in two of the operations that reach it
        reach = _alone.setdefault("reach", {})
        if not reach:
            for op in OPS:
                for t in dict.fromkeys(alone(wa, "A", [op])[2]):
                    reach.setdefault(t, []).append(op)
        where = set()
        for t, ops in reach.items():
            n = t[1] + (b == "files")
            if ops[n % len(ops)] == a:
                where.add(first[t])
            if ops[(n + 1) % len(ops)] == a:
                where.add(last[t])
    if kind == "one":
        plan = [(i, None) for i in sorted(where)][part::case[4]]
    else:
        other = {}
        for n, t in enumerate(trace_b):
            other.setdefault(t, n)
        ours = sorted(where)
        theirs = sorted(other.values())
        # all combinations of both up to 20 x 20, evenly thinned out
        ours = ours[::max(1, len(ours) // 20)]
        theirs = theirs[::max(1, len(theirs) // 20)]
        plan = [(i, j) for i in ours for j in theirs][part::4]
    for i, j in plan:
        ctx.trace()
        ctx.step(2)
        ctx.state(a, b, i, j)
        res = sched.run(wa.tasks([a]), wb.tasks(names), i, j)
        info = {"first": a, "second": names, "switch at": trace_a[i],
                "event": i, "second stops at": None if j is None
                else trace_b[j]}
        ctx.outcome("blocked schedule" if sched.late else "%d switches"
                    % len(sched.switched))
        for want, later, w, who in ((want_a, later_a, wa, "interrupted"),
                                    (want_b, later_b, wb, "interrupting")):
            got = w.state(res)
            for n in want:
                ctx.require(got[n] == want[n], "the %s operation %r gives %s"
                            % (who, n, difference(want[n], got[n])), **info)
        if i % 7 == 0 or case[-1] is True:
            for later, w in ((later_a, wa), (later_b, wb)):
                ctx.require(w.later() == later, "later behaviour differs",
                            **info)
    ctx.sample(case)


def difference(want, got):
    for w, g in zip(want, got):
        if w != g:
            return "%.300r instead of %.300r" % (g, w)
    return got
