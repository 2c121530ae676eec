"""Create and confirm planted bugs (see seeds/*.py in this folder).

    plant.py ID...        (re)create /verif/seeded/ID and confirm it
    plant.py --all        all of them
    options: --check also runs the check of the property on the changed tree
"""
import importlib.util
import glob
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BASE = "c41ad88"
PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd=None, env=None, timeout=1000):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True,
                       text=True, timeout=timeout,
                       env=dict(os.environ, **(env or {})))
    return r.returncode, r.stdout + r.stderr


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def original(diff, tree):
    """The change touches lines of the original repository only."""
    lines = {}
    touched, bad = 0, []
    file = None
    n = 0
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            file = line[6:]
            if file not in lines:
                _, text = sh("git blame -s --abbrev=40 HEAD -- %s" % file,
                             "/repo")
                mine = set(sh("git log --format=%%H %s..HEAD" % BASE,
                              "/repo")[1].split())
                lines[file] = [x.split()[0].lstrip("^")[:40] in mine
                               for x in text.splitlines()]
        elif line.startswith("@@"):
            n = int(line.split()[1].split(",")[0][1:]) - 1
        elif line.startswith("-") and not line.startswith("---"):
            touched += 1
            if lines[file][n]:
                bad.append(line)
            n += 1
        elif line.startswith(" "):
            n += 1
    return touched, bad


def note(sid, what):
    """Remember which check caught a bug (for DESIGN.md)."""
    p = os.path.join(HERE, "caught.txt")
    known = dict(x.rstrip("\n").split("\t") for x in open(p)) \
        if os.path.isfile(p) else {}
    known[sid] = what
    with open(p, "w") as f:
        f.writelines("%s\t%s\n" % x for x in sorted(known.items()))


def plant(s, check):
    sid = s["id"]
    scratch = "/tmp/plant-%d" % os.getpid()
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree("/repo", scratch, symlinks=True)
    out = []
    try:
        for file, old, new in s["edits"]:
            p = os.path.join(scratch, file)
            text = open(p).read()
            if text.count(old) != 1:
                return ["edit found %d times: %r" % (text.count(old), old)]
            open(p, "w").write(text.replace(old, new))
        _, diff = sh("git diff", scratch)
        touched, bad = original(diff, scratch)
        if not touched:
            out.append("NO ORIGINAL LINE CHANGED")
        if bad:
            out.append("changes own lines: %s" % bad[:2])
        d = os.path.join(VERIF, "seeded", sid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        shutil.copy(os.path.join(HERE, "seed", "mini.py"), d)
        shutil.copy(os.path.join(VERIF, "mc", "fixture.py"), d)
        if s.get("web"):
            shutil.copy(os.path.join(VERIF, "mc", "web.py"), d)
        open(os.path.join(d, "demo.py"), "w").write(
            '"""%s"""\nimport mini\n' % s["breaks"] + s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(
            "#!/bin/bash\n# run in /repo\n"
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc, text = sh("bash %s/demo.sh" % d, "/repo")
        if rc:
            out.append("DEMO FAILS ON THE UNCHANGED TREE: " + text[-600:])
        rc, text = sh("bash %s/demo.sh" % d, scratch)
        if not rc:
            out.append("DEMO PASSES WITH THE CHANGE")
        elif "Error" in text and "AssertionError" not in text:
            out.append("demo: " + text.strip().splitlines()[-1][:150])
        rc, text = sh(PY + " -m pytest -rA -q -p no:cacheprovider "
                      "--continue-on-collection-errors tests 2>&1 | "
                      "grep ^PASSED", scratch, {"PYTHONPATH": scratch})
        passed = sorted(x.split()[1] for x in text.splitlines()
                        if x.startswith("PASSED"))
        if len(passed) < 8:
            out.append("STABLE TESTS FAIL: %s" % passed)
        if check:
            rc, text = sh("bash check.sh %s --tier quick" % s["property"],
                          VERIF, {"VERIF_REPO": scratch})
            hit = [x for x in text.splitlines() if x.startswith("VIOLATION")]
            first = next((x for x in text.splitlines()
                          if x.startswith("---")), "")
            out.append(("caught: " if rc == 1 and hit else
                        "MISSED (exit %d): " % rc) + first[:160])
            note(sid, s["property"] + " (quick)" if rc == 1 and hit else
                 "missed by %s" % s["property"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return out


seeds = load()
args = [a for a in sys.argv[1:] if not a.startswith("--")]
if "--all" in sys.argv:
    args = list(seeds)
for a in args:
    for sid in [x for x in seeds if x == a or x.startswith(a + "-")]:
        print(sid, "|", " | ".join(plant(seeds[sid], "--check" in sys.argv)),
              flush=True)
