"""C34 environment: a scenario of all operations runs in processes with every
combination of installation folder, current folder, locale, hash seed and
optimisation and, inside the process, of the settings of numpy, console, time
zone and garbage collection; all observations are compared with those of a
reference environment."""
import itertools
import json
import os
import subprocess
import sys

from .. import overlay

PROPERTY = "C34"
TECHNIQUE = ("exhaustive enumeration of environments (process settings x "
             "settings inside the process), the real package runs in each of "
             "them and is compared with a reference environment")

FOLDERS = ["plain", "with blank", "[work]", "a*b?c", "\u00e4\u00f6\u00fc",
           "sofa_x_1.0.json", "deprecated", "$HOME%41~#;'\"", "{x}!\\n"]
HASHES = ["0", "1", "77"]
OPTIMISED = ["", "-O", "-OO"]
LOCALES = ["C.utf8", "C"]
CWD = ["work", "/", "decoy", "removed"]
INSIDE = ["errors", "silent", "nogc", "zone", "digits"]


def BOUNDS(tier):
    return {"installation folder": FOLDERS, "hash seeds": HASHES,
            "optimisation": OPTIMISED, "locale": LOCALES,
            "current folder": CWD, "inside the process": INSIDE,
            "combinations": "all" if tier == "thorough" else "all of hash "
            "seed (0, 1), optimisation, locale and current folder with one "
            "folder each, further ones for each folder; one of the settings "
            "inside the process in every fourth of the former and each of the "
            "latter"}


def cases(tier):
    out = []
    full = [list(c) for c in itertools.product(FOLDERS, HASHES, OPTIMISED,
                                               LOCALES, CWD)]
    if tier == "thorough":
        return [c + [" ".join(INSIDE)] for c in full]
    for n, c in enumerate(itertools.product(HASHES[:2], OPTIMISED, LOCALES,
                                            CWD)):
        out.append([FOLDERS[n % len(FOLDERS)]] + list(c)
                   + ["" if n % 4 else INSIDE[n // 4 % len(INSIDE)]])
    for n, f in enumerate(FOLDERS):
        out.append([f, "77", OPTIMISED[n % 3], LOCALES[n % 2],
                    CWD[n // 2 % 4], INSIDE[n % len(INSIDE)]])
    return out


def start(ctx, folder, seed, opt, loc, cwd, inside):
    """Results of the scenario in one environment."""
    base = overlay.mkscratch("mc-env-")
    root = os.path.join(base, "install", folder)
    work = os.path.join(base, "work")
    os.makedirs(root)
    os.makedirs(work)
    overlay.build(root)
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("LC_", "LANG", "PYTHON", "MC_"))}
    env.update({"PYTHONHASHSEED": seed, "LC_ALL": loc, "PYTHONUTF8": "0",
                "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "utf-8",
                "PYTHONDONTWRITEBYTECODE": "1", "MC_INSIDE": inside,
                "MC_FOLDER": folder})
    env["MC_CWD"] = {"work": work, "/": "/", "removed": "removed"}.get(
        cwd, os.path.join(base, "decoy"))
    if cwd == "decoy":
        decoy(os.path.join(base, "decoy"))
    target = os.path.join(base, "out.json")
    child = os.path.join(os.path.dirname(overlay.__file__), "envrun.py")
    r = subprocess.run(
        [sys.executable] + ([opt] if opt else [])
        + [child, root, work, target], env=env, capture_output=True,
        text=True, timeout=600, errors="replace")
    try:
        if r.returncode or not os.path.isfile(target):
            return None, (r.stdout + r.stderr)[-1500:]
        with open(target, encoding="utf-8") as f:
            return json.load(f), ""
    finally:
        overlay.rmscratch(base)


def decoy(path):
    """A folder with files that look like those of the package."""
    from .. import fixture
    spec = {("Decoy", "9.0", False): fixture.SPEC["GeneralFIR", "1.0", False],
            ("GeneralFIR", "9.0", False):
            fixture.SPEC["GeneralTF", "1.0", False]}
    for sub in ("", "sofa_conventions", os.path.join("sofar",
                                                     "sofa_conventions")):
        fixture.write_tree(os.path.join(path, sub), spec=spec, rules={},
                           upgrade={}, version="9.9")


_base = {}


def run(case, ctx):
    folder, seed, opt, loc, cwd, inside = case
    if not _base:
        res, err = start(ctx, "plain", "0", "", "C.utf8", "work",
                         "reference")
        ctx.require(res is not None, "the scenario failed: %s" % err)
        _base.update(res)
    res, err = start(ctx, folder, seed, opt, loc, cwd, inside)
    info = {"folder": folder, "hash seed": seed, "optimised": opt,
            "locale": loc, "current folder": cwd}
    ctx.require(res is not None, "the scenario failed: %s" % err, **info)
    ctx.trace()
    for name, got in res.items():
        ref = "text" if name == "digits" else "plain"
        ctx.state(*case, name)
        ctx.outcome(name)
        want = _base[ref]
        ctx.step(len(want))
        for op in want:
            if "relative" in op and cwd == "removed" or \
                    op.endswith(" shown") and name == "silent":
                continue
            ctx.require(got.get(op) == want[op], "%s (%s): %s" % (
                op, name, differ(want[op], got.get(op))), **info)
    ctx.sample(case)


def differ(a, b):
    b = b or ""
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
             min(len(a), len(b)))
    return "%r instead of %r" % (b[max(0, n - 60):n + 120],
                                 a[max(0, n - 60):n + 120])
