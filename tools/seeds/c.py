"""Planted bugs, third part."""
SOFA, IO = "sofar/sofa.py", "sofar/io.py"
UTILS, UPD = "sofar/utils.py", "sofar/update_conventions.py"
STREAM = "sofar/sofastream.py"

CRASH = '''
import os
import shutil
import fixture
import web
sf = mini.load()
path = os.path.join(mini.work, "conventions")


def table(name):
    rows = fixture.SPEC[(name, "2.0" if name == "GeneralTF" else "1.0", False)]
    return fixture.csv_text(rows).encode("windows-1252")


published = {n + ".csv": (n == "GeneralFIR", table(n))
             for n in ("GeneralFIR", "GeneralTF")}


def update(crash=None):
    """Update; the process ends at the n-th removed, opened or moved file."""
    pid = os.fork()
    if pid:
        return os.waitpid(pid, 0)[1] >> 8
    count = [0]

    def audit(event, args):
        if event in ("os.remove", "os.rename", "os.mkdir") or (
                event == "open" and (args[2] or 0) & 3):
            if str(args[0]).startswith(path):
                count[0] += 1
                if count[0] == crash:
                    os._exit(7)
    import sys
    if crash:
        sys.addaudithook(audit)
    run = web.update(sf, web.Site(published), path, True)
    os._exit(0 if run.exc is None else 1)


def files():
    out = {}
    for base, _, names in os.walk(path):
        for n in names:
            if n.endswith((".csv", ".json")):
                p = os.path.join(base, n)
                out[os.path.relpath(p, path)] = open(p, "rb").read()
    return out


def prepare():
    shutil.rmtree(path, ignore_errors=True)
    %s


prepare()
assert update() == 0
want = files()
for n in range(1, 60):
    prepare()
    code = update(n)
    if code == 0:
        break
    assert code == 7, code
    assert update() == 0, n
    assert files() == want, n
'''

SEEDS = [
 {"id": "C31-known", "property": "C31", "web": True,
  "edits": [(UPD, "            if is_standardized and not os.path.isfile(standardized_csv):\n",
             "            if is_standardized and not os.path.isfile(standardized_csv) \\\n"
             "                    and not os.path.isfile(\n"
             "                        f\"{standardized_csv[:-3]}json\"):\n")],
  "demo": CRASH % 'os.mkdir(path)',
  "needs": "an interruption between installing the compiled form and the "
  "table of a convention",
  "breaks": "a half installed convention is never completed"},

 {"id": "C31-folder", "property": "C31", "web": True,
  "edits": [(UPD, "        os.mkdir(conventions_path)\n"
             "    if not os.path.isdir(os.path.join(conventions_path, "
             "\"deprecated\")):\n"
             "        os.mkdir(os.path.join(conventions_path, \"deprecated\"))\n",
             "        os.mkdir(conventions_path)\n"
             "        os.mkdir(os.path.join(conventions_path, \"deprecated\"))\n")],
  "demo": CRASH % 'pass',
  "needs": "an interruption between creating the two folders",
  "breaks": "later updates fail because a folder is missing"},
]
