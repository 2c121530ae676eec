"""Exhaustive exploration engine.

A check (module in mc/props) provides

    PROPERTY        id
    BOUNDS(tier)    dict describing the explored space
    cases(tier)     list of JSON-able cases; together they are the whole space
    run(case, ctx)  explores one case completely (usually many executions)

All cases are executed, none is sampled or skipped.  Cases are distributed to
forked worker processes; the verdict does not depend on the distribution.
Any exception that leaves `run`, a crash of a worker and exceeding the time
limit of a case are violations.
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import pickle
import select
import signal
import sys
import time
import traceback
import warnings

from . import overlay

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 240
MAX_VIOLATIONS = 3


class Violation(Exception):
    def __init__(self, message, key=None, **detail):
        super().__init__(message)
        self.message = message
        self.key = key
        self.detail = detail


class Timeout(BaseException):
    pass


def digest(obj):
    if not isinstance(obj, bytes):
        obj = repr(obj).encode("utf-8", "backslashreplace")
    return int.from_bytes(
        hashlib.blake2b(obj, digest_size=8).digest(), "big")


class Out:
    """Everything observable about one call."""
    __slots__ = ("value", "exc", "warnings", "stdout")

    def __init__(self, value, exc, warns, stdout):
        self.value = value
        self.exc = exc
        self.warnings = warns
        self.stdout = stdout

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and type(self.exc) in types

    def brief(self):
        e = None if self.exc is None else (
            type(self.exc).__name__, str(self.exc))
        return (e, tuple(self.warnings), self.stdout)

    def __repr__(self):
        return "Out(value=%r, exc=%r, warnings=%r, stdout=%r)" % (
            self.value, self.exc, self.warnings, self.stdout[-500:])


def call(fn, *args, **kwargs):
    """Run a call and record result, exception, warnings and output."""
    buf = io.StringIO()
    value, exc = None, None
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        with contextlib.redirect_stdout(buf):
            try:
                value = fn(*args, **kwargs)
            except Exception as e:  # noqa: BLE001
                exc = e
    if exc is not None:
        exc.__traceback__ = None
    return Out(value, exc, [str(w.message) for w in rec
                            if issubclass(w.category, UserWarning)],
               buf.getvalue())


class Ctx:
    """Counters of one worker plus access to the code under test."""

    def __init__(self, prop, tier, root, known):
        self.prop, self.tier, self.root, self.known = prop, tier, root, known
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.samples = []
        self.known_hits = {}
        self.violations = []
        self.case = None
        self._sofar = None
        self._dir = None

    # -- counters ---------------------------------------------------------
    def state(self, *key):
        self.states.add(digest(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(obj)

    # -- verdicts ---------------------------------------------------------
    def fail(self, message, key=None, **detail):
        """Report a violation (returns only for a known finding)."""
        if key is not None and key in self.known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return
        raise Violation(message, key, **detail)

    def require(self, cond, message, key=None, **detail):
        if not cond:
            self.fail(message, key, **detail)

    # -- environment ------------------------------------------------------
    @property
    def sf(self):
        if self._sofar is None:
            self._sofar = overlay.load(self.root)
        return self._sofar

    @property
    def dir(self):
        """Scratch directory of this worker."""
        if self._dir is None:
            self._dir = os.path.join(self.root, "work-%d" % os.getpid())
            os.makedirs(self._dir, exist_ok=True)
        return self._dir

    def isolated(self, fn, *args, **tree):
        """Run fn(ctx, *args) in a fresh process on an own installation.

        The ctx handed to fn loads the package from that installation; its
        counters are merged into this one.
        """
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rfd)
                work = overlay.mkscratch("mc-iso-")
                try:
                    overlay.build(work, **tree)
                    overlay.unload()
                    sub = Ctx(self.prop, self.tier, work, self.known)
                    sub.case = self.case
                    try:
                        res = ("ok", fn(sub, *args))
                    except Violation as v:
                        res = ("violation", (v.message, v.key, json.loads(
                            json.dumps(v.detail, default=_jsonable))))
                    except Exception:  # noqa: BLE001
                        res = ("error", traceback.format_exc())
                finally:
                    overlay.rmscratch(work)
                with os.fdopen(wfd, "wb") as f:
                    pickle.dump(res + ((
                        sub.states, sub.transitions, sub.traces,
                        sub.outcomes, sub.samples, sub.known_hits),), f)
                code = 0
            finally:
                os._exit(code)
        os.close(wfd)
        with os.fdopen(rfd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise Violation("process of the code under test died")
        kind, val, (st, tr, tc, oc, sa, kh) = pickle.loads(data)
        self.states |= st
        self.transitions += tr
        self.traces += tc
        for k, n in oc.items():
            self.outcome(k, n)
        for s in sa:
            self.sample(s)
        for k, n in kh.items():
            self.known_hits[k] = self.known_hits.get(k, 0) + n
        if kind == "violation":
            message, key, detail = val
            raise Violation(message, key, **detail)
        if kind == "error":
            raise Violation("unexpected exception:\n" + val)
        return val


def _jsonable(o):
    return repr(o)


def _worker(module, tier, root, known, todo, counter, stop, conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    check = importlib.import_module(module)
    ctx = Ctx(check.PROPERTY, tier, root, known)

    def on_alarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, on_alarm)
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    done = 0
    warnings.simplefilter("ignore")
    while not stop.value:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(todo):
            break
        ctx.case = todo[i]
        conn.send(("case", i))
        signal.alarm(CASE_TIMEOUT)
        try:
            check.run(todo[i], ctx)
        except Violation as v:
            conn.send(("violation", (todo[i], v.message, v.key,
                                     json.loads(json.dumps(
                                         v.detail, default=_jsonable)))))
        except Timeout:
            conn.send(("violation", (
                todo[i], "no result within %d s:\n%s" % (
                    CASE_TIMEOUT, traceback.format_exc()), None, {})))
        except Exception:  # noqa: BLE001
            conn.send(("violation", (
                todo[i], "unexpected exception:\n" + traceback.format_exc(),
                None, {})))
        finally:
            signal.alarm(0)
        done += 1
    conn.send(("done", (done, ctx.states, ctx.transitions, ctx.traces,
                        ctx.outcomes, ctx.samples, ctx.known_hits)))
    conn.close()


def known_findings(prop):
    """{key: text} of the recorded (not repaired) defects of a property."""
    path = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.isfile(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                parts = line.strip().split(None, 3)
                if len(parts) == 4 and parts[0] == "finding:" \
                        and parts[1] == "property=" + prop \
                        and parts[2].startswith("key="):
                    out[parts[2][4:]] = parts[3]
    return out


def explore(module, tier, seed, only_case=None, jobs=None):
    t0 = time.time()
    check = importlib.import_module(module)
    prop = check.PROPERTY
    known = known_findings(prop)
    todo = list(check.cases(tier)) if only_case is None else [only_case]
    n_cases = len(todo)
    if n_cases and only_case is None:
        k = seed % n_cases
        todo = todo[k:] + todo[:k]
    jobs = jobs or min(os.cpu_count() or 1, 8, max(1, n_cases))
    root = overlay.mkscratch("mc-%s-" % prop)
    overlay.build(root)

    # heavy third party imports once, before forking; sofar itself is imported
    # in the workers only
    import netCDF4  # noqa: F401
    import numpy  # noqa: F401
    import numpy.testing  # noqa: F401
    import packaging.version  # noqa: F401
    import requests  # noqa: F401
    import bs4  # noqa: F401

    fork = mp.get_context("fork")
    counter = fork.Value("l", 0)
    stop = fork.Value("b", 0)
    procs = []
    sys.stdout.flush()
    for _ in range(jobs):
        rx, tx = fork.Pipe(duplex=False)
        p = fork.Process(target=_worker, args=(
            module, tier, root, known, todo, counter, stop, tx))
        p.start()
        tx.close()
        procs.append([p, rx, None])

    violations, finished = [], 0
    states, transitions, traces = set(), 0, 0
    outcomes, samples, known_hits = {}, [], {}
    executed = 0
    live = {pr[1].fileno(): pr for pr in procs}
    while live:
        ready, _, _ = select.select(list(live), [], [], 5)
        for fd in ready:
            pr = live[fd]
            try:
                kind, val = pr[1].recv()
            except EOFError:
                pr[0].join()
                if pr[2] != "done":
                    violations.append((
                        None if pr[2] is None else todo[pr[2]],
                        "worker process died (exit code %s)" % pr[0].exitcode,
                        None, {}))
                    stop.value = 1
                del live[fd]
                continue
            if kind == "case":
                pr[2] = val
            elif kind == "violation":
                violations.append(val)
                if len(violations) >= MAX_VIOLATIONS:
                    stop.value = 1
            else:
                d, st, tr, tc, oc, sa, kh = val
                pr[2] = "done"
                executed += d
                states |= st
                transitions += tr
                traces += tc
                for k, v in oc.items():
                    outcomes[k] = outcomes.get(k, 0) + v
                for k, v in kh.items():
                    known_hits[k] = known_hits.get(k, 0) + v
                samples += sa
                finished += 1
    overlay.rmscratch(root)
    for pr in procs:
        pr[0].join()

    bounds = check.BOUNDS(tier)
    evidence = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states), "transitions": transitions,
            "traces_validated_against_impl": traces,
            "cases": executed,
            "exhaustive": executed == n_cases and not violations,
            "bounds": bounds,
            "outcomes": dict(sorted(outcomes.items())),
            "samples": samples[:5],
            "technique": check.TECHNIQUE,
        },
        "assumptions": getattr(check, "ASSUMPTIONS", []) + [
            "synthetic convention folder (mc/fixture.py) replaces the empty "
            "git submodule", "netCDF4, numpy and the file system are trusted"],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(violations),
    }
    return evidence, violations, known, known_hits


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay", help="replay file of a violation")
    ap.add_argument("--jobs", type=int)
    args = ap.parse_args(argv)
    prop = args.property
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    module = "mc.props." + prop.lower()
    only = None
    if args.replay:
        with open(args.replay) as f:
            only = json.load(f)["case"]
    evidence, violations, known, hits = explore(
        module, tier, args.seed, only, args.jobs)

    evdir = os.path.join(VERIF, "evidence")
    if not args.replay:
        os.makedirs(evdir, exist_ok=True)
        try:
            blob = json.dumps(evidence, indent=1, default=_jsonable)
        except TypeError:
            blob = json.dumps(json.loads(json.dumps(
                evidence, default=_jsonable, skipkeys=True)), indent=1)
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            f.write(blob + "\n")
    cov = evidence["coverage"]
    print("%s %s: %d cases, %d states, %d transitions, %d traces, %.1f s"
          % (prop, tier, cov["cases"], cov["states"], cov["transitions"],
             cov["traces_validated_against_impl"], evidence["wall_s"]))
    for key, text in sorted(known.items()):
        if key in hits:
            print("KNOWN-FINDING: property=%s %s (key=%s, %d times)"
                  % (prop, text, key, hits[key]))
    if violations:
        rdir = os.path.join(evdir, "replays")
        os.makedirs(rdir, exist_ok=True)
        for n, (case, message, key, detail) in enumerate(violations):
            path = os.path.join(rdir, "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump({"property": prop, "case": case,
                           "message": message, "key": key, "detail": detail,
                           "replay_cmd": "bash /verif/check.sh %s --replay %s"
                           % (prop, path)}, f, indent=1, default=_jsonable)
            print("---", message[-3000:])
            if detail:
                print("    detail:", json.dumps(
                    detail, default=_jsonable)[:3000])
            print("    case:", json.dumps(case, default=_jsonable)[:200])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if cov["cases"] == 0 or cov["transitions"] == 0:
        print("nothing was explored: %s" % prop)
        return 2
    return 0
