"""C31 interrupted installations: the disk states of an update are recorded
before each change it makes to the folder of the conventions.  Every such
state, with every torn version of the file that was being written, is a state
an interruption can leave behind; every change is also made to fail.  From
each of these states the next updates are run and compared with an update that
was not interrupted."""
import errno
import itertools
import json
import os
import shutil
import sys

from .. import web
from . import c25

PROPERTY = "C31"
TECHNIQUE = ("exhaustive enumeration of crash states (each change of the "
             "disk x torn writes) and of failing changes of the real "
             "update, each continued with real updates")

STATES = ["absent", "std1", "std2", "dep1", "dep2"]
INSTALLED = STATES + ["std1csv", "dep1tabs"]
PAIRS = [["std1", "absent"], ["std2", "std1"], ["dep1", "std1"],
         ["std1", "dep1"], ["absent", "std1"], ["std1", "std1"],
         ["dep2", "dep1"]]
AGAIN = [["std1", "absent"], ["std2", "std1"], ["dep1", "std1"],
         ["std1", "dep1"]]
NAMES = c25.NAMES
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC
ERRORS = {"no space": lambda: OSError(errno.ENOSPC, "No space left"),
          "denied": lambda: PermissionError(errno.EACCES, "denied"),
          "interrupt": KeyboardInterrupt}


def BOUNDS(tier):
    return {"published states": STATES, "installed states": INSTALLED,
            "conventions": "1 with all states, 2 with %d combinations%s" % (
                len(PAIRS), ", 3" if tier == "thorough" else ""),
            "interruptions": "before each change, with the file that was "
            "written last empty, half, without the last byte or complete",
            "failing changes": sorted(ERRORS),
            "next publication": "the same, every other",
            "second interruption": "each change of the next update" if tier
            == "thorough" else "each change of the next update (%d "
            "combinations of one convention)" % len(AGAIN),
            "folder": "given, missing"}


def cases(tier):
    out = [["one", p, i] for p in STATES for i in INSTALLED]
    out += [["two", p, i] for p in PAIRS for i in PAIRS]
    out += [["again", p, i] for p in STATES[1:] for i in INSTALLED
            if tier == "thorough" or [p, i] in AGAIN]
    out += [["missing", p] for p in STATES[1:]]
    if tier == "thorough":
        out += [["three", p, i, q] for p in PAIRS for i in PAIRS
                for q in PAIRS]
        out += [["again2", p, i] for p in PAIRS for i in PAIRS]
    return out


class Recorder:
    """Sees each change of a folder before it is made (audit events)."""

    def __init__(self):
        self.active = False

    def start(self, path, at=None, error=None):
        self.path = os.path.abspath(path)
        self.at, self.error, self.fired = at, error, False
        self.n, self.log = 0, []
        self.active = True

    def stop(self):
        self.active = False

    def inside(self, p):
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not isinstance(p, (str, os.PathLike)):
            return None
        p = os.path.abspath(p)
        return p if p == self.path or p.startswith(self.path + os.sep) \
            else None

    def __call__(self, event, args):
        if not self.active:
            return
        written = None
        if event == "open":
            if not (args[2] or 0) & WRITE:
                return
            written = self.inside(args[0])
            changed = written
        elif event in ("os.remove", "os.rename", "os.link", "os.symlink",
                       "os.mkdir", "os.rmdir", "os.truncate"):
            changed = self.inside(args[0]) or (
                event in ("os.rename", "os.link", "os.symlink")
                and self.inside(args[1]))
        else:
            return
        if not changed:
            return
        self.active = False
        try:
            if self.at is None:
                self.log.append((event, written, disk(self.path)))
            n, self.n = self.n, self.n + 1
        finally:
            self.active = True
        if n == self.at:
            self.fired = True
            raise self.error


_recorder = []


def recorder():
    if not _recorder:
        _recorder.append(Recorder())
        sys.addaudithook(_recorder[0])
    return _recorder[0]


def disk(path):
    """State of the folder: None if missing, else folders and files."""
    if not os.path.isdir(path):
        return None
    dirs = {os.path.relpath(os.path.join(b, d), path)
            for b, ds, _ in os.walk(path) for d in ds}
    return dirs, c25.tree(path)


def put(path, state):
    shutil.rmtree(path, ignore_errors=True)
    if state is None:
        return
    os.makedirs(path)
    for d in sorted(state[0]):
        os.makedirs(os.path.join(path, d))
    for f, data in state[1].items():
        with open(os.path.join(path, f), "wb") as h:
            h.write(data)


def crash_states(path, log, final):
    """All disk states an interruption can leave, each once."""
    seen, out = set(), []
    after = [s for _, _, s in log[1:]] + [final]
    for n, ((event, written, state), nxt) in enumerate(zip(log, after)):
        here = [("before change %d (%s)" % (n, event), state)]
        if written:
            name = os.path.relpath(written, path)
            data = (nxt[1] if nxt else {}).get(name)
            if data is not None:
                for k in sorted({0, len(data) // 2, len(data) - 1}):
                    if 0 <= k < len(data):
                        here.append(("%s was written up to %d of %d bytes"
                                     % (name, k, len(data)),
                                     (state[0], dict(state[1],
                                                     **{name: data[:k]}))))
        for label, s in here:
            key = repr(s and (sorted(s[0]), sorted(s[1].items())))
            if key not in seen:
                seen.add(key)
                out.append((label, s))
    return out


def content(state):
    """Installed conventions (tables and compiled forms)."""
    out = {}
    for f, data in (state[1] if state else {}).items():
        if f.endswith(".csv"):
            out[f] = c25.normal(data)
        elif f.endswith(".json"):
            try:
                out[f] = json.loads(data)
            except ValueError:
                out[f] = data
    return out


def of(state, names):
    return {f: v for f, v in content(state).items()
            if os.path.basename(f).rsplit(".", 1)[0] in names}


def run_update(ctx, pub, arg, path, **fault):
    rec = recorder()
    ctx.step()
    rec.start(path, **fault)
    try:
        return web.update(ctx.sf, web.Site(c25.published(pub)), arg, True)
    finally:
        rec.stop()


def interrupted(ctx, start, pub, path, arg=None, names=None):
    """[(label, disk)] for one update from a state and its normal result."""
    arg = arg or path
    put(path, start)
    r = run_update(ctx, pub, arg, path)
    final = disk(path)
    info = {"published": pub}
    ctx.require(r.exc is None, "update raised %r" % r.exc, **info)
    log = list(recorder().log)
    out = crash_states(path, log, final)
    for n in range(len(log)):
        for name, error in ERRORS.items():
            put(path, start)
            e = error()
            r = run_update(ctx, pub, arg, path, at=n, error=e)
            if not recorder().fired:
                continue
            ctx.require(r.exc is not None or disk(path) == final,
                        "the update ended without error although change %d "
                        "(%s) failed" % (n, log[n][0]), **info)
            out.append(("change %d (%s) failed: %s" % (n, log[n][0], name),
                        disk(path)))
            ctx.outcome("failed change")
    unique = {}
    for label, s in out:
        unique.setdefault(repr(s and (sorted(s[0]), sorted(s[1].items()))),
                          (label, s))
    return list(unique.values()), final


def resume(ctx, pub, path, arg, state, want, names, info):
    """An undisturbed update from a state left by an interruption."""
    put(path, state)
    r = run_update(ctx, pub, arg, path)
    ctx.require(r.exc is None, "the next update raised %r" % r.exc, **info)
    got = of(disk(path), names)
    ctx.require(got == {f: v for f, v in want.items()
                        if os.path.basename(f).rsplit(".", 1)[0] in names},
                "after the next update: %s" % difference(want, got), **info)
    r = run_update(ctx, pub, arg, path)
    ctx.require(r.exc is None and "up to date" in r.stdout,
                "one more update: %r" % r, **info)
    ctx.require(of(disk(path), names) == got, "one more update changed "
                "files", **info)


def difference(want, got):
    return {f: "missing" if f not in got else "left over" if f not in want
            else "differs" for f in set(want) | set(got)
            if want.get(f) != got.get(f)}


def untouched(ctx, inst, pub, before, state, info):
    """Conventions that are not part of the update stay as they are."""
    for name, i in inst.items():
        p = pub.get(name, "absent")
        if i == "absent" or not (p == "absent" or i[:4] == p[:4]):
            continue
        old, new = of(before, [name]), of(state, [name])
        if i.endswith("csv"):
            new = {f: v for f, v in new.items() if f in old}
        ctx.require(old == new, "the interruption changed %s, which is not "
                    "updated: %s" % (name, difference(old, new)), **info)


def explore(ctx, pub, inst, others, path, arg, twice=False):
    """All interruptions of one update and all continuations."""
    if inst is None:
        start = None
    else:
        shutil.rmtree(path, ignore_errors=True)
        c25.install(path, inst)
        start = disk(path)
    states, final = interrupted(ctx, start, pub, path, arg)
    for label, state in states:
        info = {"published": pub, "installed": inst, "interrupted": label}
        ctx.state(sorted(pub.items()), inst and sorted(inst.items()),
                  repr(content(state)))
        ctx.trace()
        ctx.outcome("interruptions")
        untouched(ctx, inst or {}, pub, start, state, info)
        names = [n for n in pub if pub[n] != "absent"]
        resume(ctx, pub, path, arg, state, content(final), names, info)
        for other in others:
            nxt = dict(zip(pub, other))
            put(path, start)
            want = expected(nxt)
            ctx.outcome("other publication")
            resume(ctx, nxt, path, arg, state, want,
                   [n for n in nxt if nxt[n] != "absent"],
                   dict(info, next=nxt))
        if twice:
            more, _ = interrupted(ctx, state, pub, path, arg)
            for label2, state2 in more:
                ctx.outcome("second interruption")
                resume(ctx, pub, path, arg, state2, content(final), names,
                       dict(info, again=label2))


def expected(pub):
    """Files of published conventions."""
    out = {}
    for name, p in pub.items():
        if p != "absent":
            base = ("deprecated/" if p.startswith("dep") else "") + name
            out[base + ".csv"] = c25.normal(c25.csv(name, p))
            out[base + ".json"] = c25.js(name, p)
    return out


def run(case, ctx):
    path = os.path.join(ctx.dir, "conventions")
    try:
        if case[0] == "one":
            # (an installed table without compiled form remains as it is)
            others = [[p] for p in STATES[1:] if p != case[1] and not (
                case[2].endswith("csv") and case[2][:4] == p)]
            explore(ctx, {NAMES[0]: case[1]}, {NAMES[0]: case[2]}, others,
                    path, path)
        elif case[0] == "again":
            explore(ctx, {NAMES[0]: case[1]}, {NAMES[0]: case[2]}, [], path,
                    path, True)
        elif case[0] == "missing":
            explore(ctx, {NAMES[0]: case[1], NAMES[1]: "std1"}, None, [],
                    path, path)
        else:
            combos = [c for c in case[1:]]
            pub = {NAMES[k]: c[0] for k, c in enumerate(combos)}
            inst = {NAMES[k]: c[1] for k, c in enumerate(combos)}
            explore(ctx, pub, inst, [], path, path, case[0] == "again2")
    finally:
        shutil.rmtree(path, ignore_errors=True)
    ctx.sample(case)
