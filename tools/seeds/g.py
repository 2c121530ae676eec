"""Planted bugs, seventh part."""
SOFA, IO = "sofar/sofa.py", "sofar/io.py"
UTILS, UPD = "sofar/utils.py", "sofar/update_conventions.py"
STREAM = "sofar/sofastream.py"
DOCS = "docs/resources/conventions.py"
DOCS_DEMO = '''
import json
import os
import runpy
import shutil
sf = mini.load()
installed = os.path.join(os.path.dirname(sf.__file__), "sofa_conventions")
folder = os.path.join(mini.work, "docs", "resources")
os.makedirs(folder)
shutil.copy(os.path.join(os.getcwd(), "docs", "resources", "conventions.py"),
            folder)
rules = {}


def add(name, version, deprecated, change=None):
    old = os.path.join(installed, "conventions", "GeneralFIR_1.0.json")
    with open(old) as f:
        table = json.load(f)
    table["GLOBAL:SOFAConventions"]["default"] = name
    table["GLOBAL:SOFAConventionsVersion"]["default"] = version
    table["GLOBAL:Title"]["comment"] = "only in " + version
    if change:
        change(table)
    with open(os.path.join(os.path.dirname(old), *(["deprecated"] * deprecated),
                           "%s_%s.json" % (name, version)), "w") as f:
        json.dump(table, f)


def document():
    with open(os.path.join(installed, "rules", "upgrade.json"), "w") as f:
        json.dump(rules, f)
    os.chdir(folder)
    runpy.run_path("conventions.py")
    with open("conventions.rst", encoding="utf-8") as f:
        return f.read()
'''

SEEDS = [
 {"id": "C36-numpy-errors", "property": "C36",
  "edits": [(IO, "        # load data\n        for var in file.variables.keys():\n",
             "        # load data (that may contain invalid numbers)\n"
             "        settings = np.seterr(invalid='ignore')\n"
             "        for var in file.variables:\n"),
            (IO, "    # remove fields from initial Sofa object that were not contained in NetCDF\n",
             "    np.seterr(**settings)\n\n"
             "    # remove fields of initial Sofa object that were not contained in NetCDF\n")],
  "demo": '''
import netCDF4
import numpy as np
sf = mini.load()
f = mini.path("a.sofa")
sf.write_sofa(f, sf.Sofa("GeneralFIR"))
with netCDF4.Dataset(f, "a") as d:
    d.createVariable("Mine", "S1", ("I",))
    d["Mine"][:] = np.array([b"\\xff"])
before = np.geterr()
mini.quiet(sf.read_sofa, f)
with open(f, "rb") as fh:
    data = fh.read()
for n in range(0, len(data), 97):
    with open(f, "wb") as fh:
        fh.write(data[:n] + bytes([data[n] ^ 255]) + data[n + 1:])
    mini.quiet(sf.read_sofa, f)
    assert np.geterr() == before
''',
  "needs": "reading fails after the global attributes were read",
  "breaks": "numpy does not report invalid operations any more"},
 {"id": "C36-line-width", "property": "C36",
  "edits": [(SOFA, "                # add value information if not too much\n",
             "                # add values if not too much\n"
             "                np.set_printoptions(linewidth=75)\n")],
  "demo": '''
import numpy as np
sf = mini.load()
s = sf.Sofa("GeneralFIR")
np.set_printoptions(linewidth=120)
before = np.get_printoptions()
mini.quiet(s.inspect)
assert np.get_printoptions() == before
''',
  "needs": "settings of numpy made by the user",
  "breaks": "the report changes how numpy prints arrays"},
 {"id": "C36-umask", "property": "C36",
  "edits": [(IO, "    # list of all attribute names\n    all_keys",
             "    # data can be read by the group\n"
             "    umask = os.umask(0o002)\n\n"
             "    # list of all attribute names\n    all_keys"),
            (IO, "        # write variable attributes\n",
             "        os.umask(umask)\n        # write variable attributes\n")],
  "demo": '''
import os
sf = mini.load()
s = sf.Sofa("GeneralFIR")
os.umask(0o077)
_, _, err = mini.quiet(sf.write_sofa, mini.path("none/a.sofa"), s)
assert err is not None
mask = os.umask(0o077)
assert mask == 0o077, oct(mask)
''',
  "needs": "a file that can not be written",
  "breaks": "files the user creates later can be read by others"},
 {"id": "C36-folder", "property": "C36", "web": True,
  "edits": [(UPD, "        os.mkdir(os.path.join(temp, 'deprecated'))\n",
             "        folder = os.getcwd()\n"
             "        conventions_path = os.path.abspath(conventions_path)\n"
             "        os.chdir(temp)\n"
             "        os.mkdir('deprecated')\n"),
            (UPD, '                print("\\nUpdating the conventions was canceled.")\n'
             "                return\n",
             '                print("\\nUpdating the conventions was canceled.")\n'
             "                os.chdir(folder)\n"
             "                return\n"),
            (UPD, '            print("... conventions already up to date.")\n',
             '            print("... conventions already up to date.")\n'
             "        os.chdir(folder)\n")],
  "demo": '''
import os
import fixture
import web
sf = mini.load()
table = fixture.csv_text(fixture.SPEC[("GeneralTF", "2.0", False)]).encode(
    "windows-1252")
os.chdir(mini.work)
site = web.Site({"GeneralTF_2.0.csv": (False, table)}, {2: "500"})
run = web.update(sf, site, mini.path("conventions"), True)
assert run.exc is not None
assert os.getcwd() == os.path.realpath(mini.work)
''',
  "needs": "an update that fails",
  "breaks": "the current folder of the process is a removed one"},
 {"id": "C36-proxy", "property": "C36", "web": True,
  "edits": [(UPD, "        for convention in conventions:\n\n"
             "            # exclude these conventions\n",
             "        # do not wait forever\n"
             "        socket.setdefaulttimeout(20)\n"
             "        for convention in conventions:\n\n"
             "            # exclude these conventions\n"),
            (UPD, "from tempfile import TemporaryDirectory\n",
             "import socket\nimport tempfile\n"),
            (UPD, "    with TemporaryDirectory() as temp:\n",
             "    with tempfile.TemporaryDirectory() as temp:\n")],
  "demo": '''
import socket
import fixture
import web
sf = mini.load()
table = fixture.csv_text(fixture.SPEC[("GeneralTF", "2.0", False)]).encode(
    "windows-1252")
site = web.Site({"GeneralTF_2.0.csv": (False, table)})
run = web.update(sf, site, mini.path("conventions"), True)
assert run.exc is None
assert socket.getdefaulttimeout() is None
''',
  "needs": "network connections of the user's program after an update",
  "breaks": "all later connections of the process time out"},
 {"id": "C36-leftover", "property": "C36",
  "edits": [(SOFA, "                f_id.write(info_str + \"\\n\")\n",
             "                with tempfile.NamedTemporaryFile(\n"
             "                        'w+', encoding='utf-8', delete=False) as temp:\n"
             "                    # (never leave an incomplete report)\n"
             "                    temp.write(info_str + \"\\n\")\n"
             "                    temp.seek(0)\n"
             "                    shutil.copyfileobj(temp, f_id)\n"
             "                os.remove(temp.name)\n"),
            (SOFA, "from datetime import datetime\n",
             "from datetime import datetime\nimport shutil\nimport tempfile\n")],
  "demo": '''
import os
import tempfile
sf = mini.load()
s = sf.Sofa("GeneralFIR")
tempfile.tempdir = mini.work
import resource
import signal
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
s.GLOBAL_Comment = "x" * 100000
resource.setrlimit(resource.RLIMIT_FSIZE, (5000, 5000))
mini.quiet(s.inspect, mini.path("report.txt"))
assert set(os.listdir(mini.work)) <= {"report.txt"}, os.listdir(mini.work)
''',
  "needs": "a report that can not be written completely",
  "breaks": "a temporary file is left behind"},

 {"id": "C37-several-rules", "property": "C37",
  "edits": [(DOCS, "                    docs += ('This convention is deprecated. '\n"
             "                             f'Use {\", \".join(references)} instead.\\n\\n')\n",
             "                    docs += ('This convention is deprecated. '\n"
             "                             f'Use {\" or \".join(references[:1])} instead.\\n\\n')\n")],
  "demo": DOCS_DEMO + """
rules["GeneralFIR"] = {"from_to": [[["0.4", "0.5"], ["GeneralTF_2.0",
                                                     "GeneralFIR_1.0"], "u"]],
                       "u": {"move": {}, "remove": [], "message": None}}
add("GeneralFIR", "0.5", True)
text = document()
assert "GeneralTF_2.0" in text.split("**GeneralFIR v0.5**")[1].split("list-t")[0]
assert "GeneralFIR_1.0" in text.split("**GeneralFIR v0.5**")[1].split("list-t")[0]
""",
  "needs": "an upgrade rule with several targets",
  "breaks": "only the first convention to use instead is named"},
 {"id": "C37-version-comment", "property": "C37",
  "edits": [(DOCS, "        if key == \"GLOBAL:SOFAConventions\":\n",
             "        if key.startswith(\"GLOBAL:SOFAConventions\"):\n")],
  "demo": DOCS_DEMO + """
def describe(table):
    table["GLOBAL:SOFAConventionsVersion"]["comment"] = "my comment"
add("Mine", "1.0", False, describe)
assert "my comment" in document()
""",
  "needs": "a convention that comments its version",
  "breaks": "the comment is missing in the documentation"},
 {"id": "C37-zero", "property": "C37",
  "edits": [(DOCS, "            f'     - {value[\"default\"]}\\n'\n",
             "            f'     - {value[\"default\"] or \"\"}\\n'\n")],
  "demo": DOCS_DEMO + """
def change(table):
    table["Data.Delay"]["default"] = 0
add("Mine", "1.0", False, change)
row = document().split("**Mine v1.0**")[1].split("Data_Delay")[1]
assert row.split(chr(10))[1].strip() == "- 0", row[:200]
""",
  "needs": "a default that is the number zero",
  "breaks": "the default is missing in the documentation"},
]
