"""Planted bugs, fifth part."""
SOFA, IO = "sofar/sofa.py", "sofar/io.py"
UTILS, UPD = "sofar/utils.py", "sofar/update_conventions.py"
STREAM = "sofar/sofastream.py"

CHILD = '''
import os
import subprocess
import sys
import textwrap
import fixture
sf = mini.load()


def child(code, options=(), **env):
    """Run code in a new process with the given environment."""
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("LC_", "LANG", "PYTHON"))}
    e.update(PYTHONPATH=mini.root, **env)
    r = subprocess.run(
        [sys.executable, *options, "-c",
         "import warnings\\nwarnings.simplefilter('ignore')\\n"
         "import sofar as sf\\n" + textwrap.dedent(code)],
        env=e, cwd=env.get("FOLDER", mini.work), capture_output=True,
        text=True)
    assert not r.returncode, r.stderr[-500:]
    return r.stdout
'''

SEEDS = [
 {"id": "C34-order", "property": "C34",
  "edits": [(IO, '''    all_keys = [key for key in sofa.__dict__.keys() if not key.startswith("_")]

    # open new''', '''    all_keys = {key for key in sofa.__dict__.keys() if not key.startswith("_")}

    # open new''')],
  "demo": CHILD + '''
seen = set()
for seed in range(6):
    f = mini.path("%d.sofa" % seed)
    child("sf.write_sofa(%r, sf.Sofa('GeneralFIR'))" % f,
          PYTHONHASHSEED=str(seed))
    with sf.SofaStream(f) as s:
        text, _, err = mini.quiet(s.inspect)
    assert err is None
    seen.add("\\n".join(t for t in text.split("\\n") if "Date" not in t))
assert len(seen) == 1, len(seen)
''',
  "needs": "processes with different hash seeds",
  "breaks": "order of variables in the file differs between processes"},
 {"id": "C34-assert", "property": "C34",
  "edits": [(UTILS, '''    # check if the convention exists
    if convention not in _get_conventions("name"):
        raise ValueError(
            f"Convention '{convention}' does not exist")

    name_version = _get_conventions("name_version")

    # check which version is wanted
    version_exists = False
    for versions in name_version:
        # check if convention and version match
        if versions[0] == convention \\
                and str(float(versions[1])) == version:
            version_exists = True

    if not version_exists:
        raise ValueError((
''', '''    # check if the convention exists
    if convention not in _get_conventions("name"):
        raise ValueError(
            f"Convention '{convention}' does not exist")

    # check which version is wanted
    try:
        assert version in [
            str(float(v)) for name, v in _get_conventions("name_version")
            if name == convention]
    except AssertionError:
        raise ValueError((
''')],
  "demo": CHILD + '''
o = sf.Sofa("GeneralFIR")
f = mini.path("a.sofa")
mini.quiet(sf.write_sofa, f, o)
import netCDF4
with netCDF4.Dataset(f, "a") as n:
    n.SOFAConventionsVersion = "77.0"
code = """
try:
    sf.read_sofa(%r, verbose=False)
except Exception as e:
    print(type(e).__name__, e)
""" % f
a, b = child(code), child(code, ["-O"])
assert a == b and a, (a, b)
''',
  "needs": "python -O and a file with an unknown version",
  "breaks": "the version is not checked"},
 {"id": "C34-local", "property": "C34",
  "edits": [(UTILS, '''        conventions_path = os.path.join(
            os.path.dirname(__file__), "sofa_conventions", 'conventions')

    reg_str''', '''        conventions_path = os.path.join("sofa_conventions", "conventions")
        # use the conventions that come with sofar
        if not os.path.isdir(conventions_path):
            conventions_path = os.path.join(
                os.path.dirname(__file__), conventions_path)

    reg_str''')],
  "demo": CHILD + '''
other = os.path.join(mini.root, "other")
os.mkdir(other)
code = "sf.list_conventions(); print(list(sf.Sofa('GeneralFIR').__dict__))"
a = child(code, FOLDER=other)
spec = {("GeneralFIR", "1.0", False): fixture.SPEC["GeneralTF", "1.0", False]}
fixture.write_tree(os.path.join(other, "sofa_conventions"), spec=spec)
b = child(code, FOLDER=other)
assert a == b, (a, b)
''',
  "needs": "a current folder that contains a folder sofa_conventions",
  "breaks": "conventions of the current folder are used"},
 {"id": "C34-ascii", "property": "C34",
  "edits": [(UPD, "json.dump(convention_dict, file, indent=4)",
             "json.dump(convention_dict, file, indent=4, "
             "ensure_ascii=False)")],
  "demo": CHILD + '''
other = os.path.join(mini.root, "other")
os.mkdir(other)
with open(os.path.join(other, "X_1.0.csv"), "w",
          encoding="windows-1252") as f:
    f.write(fixture.csv_text(fixture.SPEC["GeneralFIR", "1.0", False]).replace(
        "GeneralFIR", "M\\xfcller"))
out = []
for lang in ("C.utf8", "C"):
    child("from sofar.update_conventions import _compile_conventions as c\\n"
          "c(%r)" % other, LC_ALL=lang, PYTHONUTF8="0",
          PYTHONCOERCECLOCALE="0")
    with open(os.path.join(other, "X_1.0.json"), "rb") as f:
        out.append(f.read())
assert out[0] == out[1]
''',
  "needs": "a locale without unicode and conventions with special characters",
  "breaks": "updating the conventions fails"},
 {"id": "C34-console", "property": "C34",
  "edits": [(SOFA, '''        # output to console
        print(info_str)

    def add_missing''', '''        # output to console (at once also for long output)
        sys.stdout.write(info_str + "\\n")
        sys.stdout.flush()

    def add_missing'''), (SOFA, "import os\n", "import os\nimport sys\n")],
  "demo": '''
import sys
sf = mini.load()
o = sf.Sofa("GeneralFIR")
out, sys.stdout = sys.stdout, None
try:
    o.inspect(mini.path("a.txt"))
finally:
    sys.stdout = out
with open(mini.path("a.txt")) as f:
    assert "GLOBAL_SOFAConventions" in f.read()
''',
  "needs": "a process without console (e.g. pythonw)",
  "breaks": "inspect fails"},
]

PLATFORMS = '''
import json
import os
import requests
import requests.adapters
from sofar.update_conventions import _check_congruency


class Reply:
    def __init__(self, data):
        self.content, self.text = data, data.decode("latin1")
        self.status_code = 200

    def raise_for_status(self):
        pass


def compare(a, b, branch="master", save=None):
    """Compare {name: data} of both platforms."""
    def get(url, **kwargs):
        if "sofaconventions.org" in url:
            n = url.rsplit("/", 1)[1]
            return Reply(a[n] if n else "".join(
                "<a href='%s'>%s</a>" % (n, n) for n in a).encode())
        assert "/%s/" % branch in url, url
        if "raw.githubusercontent.com" in url:
            return Reply(b[url.rsplit("/", 1)[1]])
        return Reply(json.dumps({"items": [
            {"path": "SOFAtoolbox/conventions/" + n} for n in b]}).encode())
    requests.get = get
    out, _, err = mini.quiet(_check_congruency, save, branch)
    assert err is None, err
    return out
'''

SEEDS += [
 {"id": "C35-branch", "property": "C35",
  "edits": [(UPD, '''                 ("https://raw.githubusercontent.com/sofacoustics/SOFAtoolbox/"
                  f"{branch}/SOFAtoolbox/conventions/")]
''', '''                 ("https://raw.githubusercontent.com/sofacoustics/SOFAtoolbox/"
                  "master/SOFAtoolbox/conventions/")]
''')],
  "demo": "sf = mini.load()\n" + PLATFORMS + '''
assert "A_1.0.csv differs" in compare(
    {"A_1.0.csv": b"a"}, {"A_1.0.csv": b"b"}, "development")
''',
  "needs": "comparison with another branch than master",
  "breaks": "files of the wrong branch are compared"},
 {"id": "C35-first", "property": "C35",
  "edits": [(UPD, '''            # save diverging files
            if save_dir is not None:
                for subdir, d in zip(subdirs, data):
                    filename = os.path.join(save_dir, subdir, convention)
''', '''            # save diverging files (keep those that were saved before)
            if save_dir is not None:
                for subdir, d in zip(subdirs, data):
                    filename = os.path.join(save_dir, subdir, convention)
                    if os.path.isfile(filename):
                        continue
''')],
  "demo": "sf = mini.load()\n" + PLATFORMS + '''
os.mkdir(mini.path("save"))
for n in (b"b", b"c"):
    compare({"A_1.0.csv": b"a"}, {"A_1.0.csv": n}, save=mini.path("save"))
    with open(mini.path("save/sofatoolbox/A_1.0.csv"), "rb") as f:
        assert f.read() == n
''',
  "needs": "a folder that contains differing files of an earlier comparison",
  "breaks": "saved files are outdated"},
 {"id": "C35-lower", "property": "C35",
  "edits": [(UPD, '''        elif convention not in sofatoolbox:
            sofaconventions''', '''        elif convention.lower() not in [s.lower() for s in sofatoolbox]:
            sofaconventions'''), (UPD, '''        if data[0] != data[1]:
''', '''        if sorted(data[0].split(b"\\n")) != sorted(data[1].split(b"\\n")):
''')],
  "demo": "sf = mini.load()\n" + PLATFORMS + '''
assert "A_1.0.csv differs" in compare(
    {"A_1.0.csv": b"a\\nb\\n"}, {"A_1.0.csv": b"b\\na\\n"})
''',
  "needs": "conventions with the same entries in another order",
  "breaks": "differing conventions are not reported"},
]
