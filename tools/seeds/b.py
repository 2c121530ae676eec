IO, SOFA, STREAM, UTILS, UPD = ["sofar/%s.py" % f for f in (
    "io", "sofa", "sofastream", "utils", "update_conventions")]

SEEDS = [
 {"id": "C21-drop-warnings", "property": "C21",
  "edits": [(SOFA, '        if warning_msg and error_msg:\n'
             '            issues = error_msg + "\\n" + warning_msg\n'
             '        elif warning_msg:\n'
             '            issues = warning_msg\n'
             '        elif error_msg:\n'
             '            issues = error_msg\n',
             '        if error_msg:\n'
             '            issues = error_msg\n'
             '        elif warning_msg:\n'
             '            issues = warning_msg\n')],
  "demo": '''
sf = mini.load()
s = sf.Sofa("SingleRoomDRIR", verify=False)
s.SourcePosition_Units = "inch"
text, _, _ = mini.quiet(s.verify, issue_handling="print")
_, issues, _ = mini.quiet(s.verify, issue_handling="return")
assert "preliminary" in text and "preliminary" in issues
''', "needs": "data causing errors as well as warnings",
  "breaks": "warnings are not returned if there are errors"},

 {"id": "C21-to-float", "property": "C21",
  "edits": [(SOFA, "            value = getattr(self, key)\n\n"
             "            if dtype == \"attribute\":\n",
             "            value = getattr(self, key, None)\n"
             "            if dtype == \"double\" and isinstance(value, np.ndarray) \\\n"
             "                    and value.dtype.kind == \"i\":\n"
             "                value = value.astype(float)\n"
             "                setattr(self, key, value)\n\n"
             "            if dtype == \"attribute\":\n")],
  "demo": '''
import numpy as np
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.Data_Real = np.array([[[3]]])
s.verify()
assert s.Data_Real.dtype.kind == "i"
''', "needs": "integer data and a later look at them",
  "breaks": "verification converts integer data"},

 {"id": "C22-custom-date", "property": "C22",
  "edits": [(UTILS, '            keys_a = [k for k in keys_a if "Date" not in k]\n'
             '            keys_b = [k for k in keys_b if "Date" not in k]\n',
             '            keys_a = [k for k in keys_a if "Date" not in k]\n'
             '            keys_b = [k for k in keys_b if k in keys_a]\n')],
  "demo": '''
sf = mini.load()
a = sf.Sofa("GeneralTF")
b = a.copy()
b.add_attribute("GLOBAL_Extra", "x")
assert not sf.equals(a, b, verbose=False, exclude="DATE")
assert not sf.equals(b, a, verbose=False, exclude="DATE")
''', "needs": "comparison without dates where only the second object has an "
  "additional entry", "breaks": "additional entries are ignored"},

 {"id": "C22-last-wins", "property": "C22",
  "edits": [(UTILS, "            if a != b:\n"
             "                is_identical = _equals_raise_warning(\n"
             '                    f"not identical: different values for {key}", verbose)\n',
             "            is_identical = is_identical if a == b else \\\n"
             "                _equals_raise_warning(\n"
             "                    f\"not identical: {key} differs\", verbose) or \\\n"
             "                a.strip() == b.strip()\n")],
  "demo": '''
sf = mini.load()
a = sf.Sofa("GeneralTF")
b = a.copy()
b.GLOBAL_Title = " "
assert not sf.equals(a, b, verbose=False)
''', "needs": "texts that differ in blanks only",
  "breaks": "texts that differ in surrounding blanks are equal"},

 {"id": "C22-absolute", "property": "C22",
  "edits": [(UTILS, '        elif type_a == "double" and type_b == "double":\n',
             '        elif "double" == type_a == type_b:\n'
             "            # (smaller numbers are numerical noise)\n"
             "            a, b = [np.where(np.abs(v) < 1e-8, 0, v) for v in (a, b)]\n")],
  "demo": '''
import numpy as np
sf = mini.load()
a = sf.Sofa("GeneralTF")
b = a.copy()
a.Data_Real = np.array([[[1e-9]]])
b.Data_Real = np.array([[[2e-9]]])
assert not sf.equals(a, b, verbose=False)
''', "needs": "different numbers that are both very small",
  "breaks": "small numbers that differ by a factor are equal"},

 {"id": "C23-hidden-version", "property": "C23",
  "edits": [(UTILS, "    paths = standardized + deprecated\n",
             "    # (standardized conventions take precedence)\n"
             "    names = [os.path.basename(p).split('_')[0] for p in standardized]\n"
             "    paths = standardized + [\n"
             "        p for p in deprecated\n"
             "        if os.path.basename(p).split('_')[0] not in names]\n")],
  "demo": '''
sf = mini.load()
text = mini.quiet(sf.list_conventions)[0]
assert "SimpleFreeFieldHRIR (Version 0.4)" in text
assert "SimpleFreeFieldHRIR (Version 1.0)" in text
sf.Sofa("SimpleFreeFieldHRIR", version="0.4")
''', "needs": "a deprecated version of a convention that is still current",
  "breaks": "deprecated versions of current conventions are not found"},

 {"id": "C23-prefix", "property": "C23",
  "edits": [(SOFA, 'if os.path.basename(path).startswith(convention + "_")]',
             'if os.path.basename(path).startswith(convention)]')],
  "demo": '''
sf = mini.load()
s = sf.Sofa("GeneralFIR")
assert s.GLOBAL_SOFAConventions == "GeneralFIR"
assert s.GLOBAL_SOFAConventionsVersion == "1.0"
assert mini.raises(ValueError, sf.Sofa, "GeneralF")
''', "needs": "a convention whose name starts with the name of another one",
  "breaks": "conventions whose names are prefixes are confused"},

 {"id": "C24-in-place", "property": "C24",
  "edits": [(SOFA, "            # delete from Sofa object\n"
             "            delattr(self, source_sofar)\n", ""),
            (SOFA, "            setattr(self, target_sofar, data)\n",
             "            setattr(self, target_sofar, data)\n"
             "            # delete from Sofa object\n"
             "            delattr(self, source_sofar)\n")],
  "demo": '''
import numpy as np
sf = mini.load()
s = sf.Sofa("MultiSpeakerBRIR", verify=False)
s.Data_IR = np.arange(12.).reshape(1, 2, 2, 3)
mini.quiet(s.upgrade_convention, "SingleRoomMIMOSRIR_1.0", verify=False)
assert s.Data_IR.shape == (1, 2, 3, 2), s.Data_IR.shape
assert s.Data_IR[0, 1, 2, 0] == 8
''', "needs": "an upgrade rule that moves axes of data that keep their name",
  "breaks": "data that keep their name are replaced by default data"},

 {"id": "C24-one-axis", "property": "C24",
  "edits": [(SOFA, "                while data.ndim < np.max(moveaxis) + 1:\n",
             "                if data.ndim < np.max(moveaxis) + 1:\n")],
  "demo": '''
import numpy as np
sf = mini.load()
s = sf.Sofa("MultiSpeakerBRIR", verify=False)
s.Data_IR = np.array([[3.]])
_, _, err = mini.quiet(s.upgrade_convention, "SingleRoomMIMOSRIR_1.0",
                       verify=False)
assert err is None, err
assert np.size(s.Data_IR) == 1 and np.ravel(s.Data_IR)[0] == 3
''', "needs": "data with two or more trailing singleton dimensions missing",
  "breaks": "the upgrade is left unfinished with an internal error"},

 {"id": "C24-data-type", "property": "C24",
  "edits": [(SOFA, '                "GLOBAL_Version",\n'
             '                "GLOBAL_DataType"]\n',
             '                "GLOBAL_Version"]\n')],
  "demo": '''
sf = mini.load()
s = sf.Sofa("MultiSpeakerBRIR", verify=False)
mini.quiet(s.upgrade_convention, "SingleRoomMIMOSRIR_1.0", verify=False)
assert s.GLOBAL_DataType == "FIR-E"
''', "needs": "an upgrade to a convention with another data type",
  "breaks": "the data type of the old convention remains"},

 {"id": "C25-suffix", "property": "C25",
  "edits": [(UPD, 'is_standardized = convention in standardized\n',
             'is_standardized = any(\n                name.endswith(convention) for name in standardized)\n')],
  "web": True,
  "demo": '''
import os
import fixture
import web
sf = mini.load()
path = mini.path("conventions")
rows = fixture.SPEC["SimpleFreeFieldHRIR", "1.0", False]
text = fixture.csv_text(rows).encode("windows-1252")
run = web.update(sf, web.Site({"SimpleFreeFieldHRIR_1.0.csv": (False, text),
                               "FreeFieldHRIR_1.0.csv": (True, text)}),
                 path, assume_yes=True)
assert run.exc is None, run
assert os.path.isfile(os.path.join(path, "deprecated",
                                   "FreeFieldHRIR_1.0.csv"))
''', "needs": "a deprecated convention whose name is the end of the name of a "
  "current one",
  "breaks": "the deprecated convention is not installed as such"},

 {"id": "C25-tokens", "property": "C25",
  "edits": [(UPD, "                if data_current != data:\n"
             "                    updated = True\n"
             "                    with open(os.path.join(temp, convention), \"wb\") as file:\n",
             "                if data_current.split() != data.split():\n"
             "                    updated = True\n"
             "                    with open(os.path.join(temp, convention), \"wb\") as file:\n")],
  "web": True,
  "demo": '''
import json
import os
import fixture
import web
sf = mini.load()
path = os.path.join(mini.root, "sofar", "sofa_conventions", "conventions")
published = {}
for (n, v, d), rows in fixture.SPEC.items():
    if (n, v) == ("GeneralTF", "2.0"):
        # flag moves to the column of the default
        rows = [r[:1] + ("m", None) + r[3:] if r[0] == "GLOBAL:Title"
                else r for r in rows]
    published["%s_%s.csv" % (n, v)] = (
        d, fixture.csv_text(rows).encode("windows-1252"))
run = web.update(sf, web.Site(published), assume_yes=True)
assert run.exc is None, run
with open(os.path.join(path, "GeneralTF_2.0.json")) as f:
    assert json.load(f)["GLOBAL:Title"]["flags"] is None
''', "needs": "a published change that only moves a cell to another column",
  "breaks": "changes that only concern blanks or empty cells are not "
  "installed"},

 {"id": "C26-direct-deprecated", "property": "C26",
  "edits": [(UPD, "                # add new deprecation\n"
             "                updated = True\n"
             "                with open(os.path.join(temp, 'deprecated', convention), \"wb\") \\\n"
             "                        as file:\n",
             "                # add new deprecation\n"
             "                updated = True\n"
             "                with open(deprecated_csv, \"wb\") as file:\n"),
            (UPD, "                print(f\"- add deprecated convention: {convention[:-4]}\")\n"
             "                update.append(os.path.join('deprecated', convention))\n",
             "                print(f\"- add deprecated convention: {convention[:-4]}\")\n")],
  "web": True,
  "demo": '''
import os
import fixture
import web
sf = mini.load()
path = os.path.join(mini.root, "sofar", "sofa_conventions", "conventions")
before = sorted(os.listdir(os.path.join(path, "deprecated")))
published = {}
for (n, v, d), rows in fixture.SPEC.items():
    published["%s_%s.csv" % (n, v)] = (
        d, fixture.csv_text(rows).encode("windows-1252"))
published = {"AAA_1.0.csv": published["OldTracker_1.0.csv"][:0] or (
    True, published["OldTracker_1.0.csv"][1]), **published}
for n in range(2, len(published) + 2):
    run = web.update(sf, web.Site(published, fault={n: "connect"}),
                     assume_yes=True)
    assert run.exc is not None
    assert sorted(os.listdir(os.path.join(path, "deprecated"))) == before
''', "needs": "a new deprecated convention and a failure of a later download",
  "breaks": "new deprecated conventions are installed before all downloads "
  "have succeeded"},

 {"id": "C26-remove-early", "property": "C26",
  "edits": [(UPD, "                print(f\"- deprecate convention: {convention[:-4]}\")\n",
             "                os.remove(standardized_csv)\n"
             "                print(\"- deprecate convention:\", convention[:-4])\n")],
  "web": True,
  "demo": '''
import os
import fixture
import web
sf = mini.load()
path = os.path.join(mini.root, "sofar", "sofa_conventions", "conventions")
before = sorted(os.listdir(path))
published = {}
for (n, v, d), rows in fixture.SPEC.items():
    published["%s_%s.csv" % (n, v)] = (
        d or n == "GeneralSOS",
        fixture.csv_text(rows).encode("windows-1252"))
for n in range(2, len(published) + 2):
    run = web.update(sf, web.Site(published, fault={n: "timeout"}),
                     assume_yes=True)
    assert run.exc is not None
    assert sorted(os.listdir(path)) == before
''', "needs": "a convention that was deprecated and a failing later download",
  "breaks": "conventions are removed before all downloads have succeeded"},

 {"id": "C27-data-anywhere", "property": "C27",
  "edits": [(UPD, '        if key.startswith("Data"):\n',
             '        if "Data" in key and "GLOBAL" not in key:\n')],
  "demo": '''
import json
import os
import fixture
sf = mini.load()
from sofar.update_conventions import _compile_conventions
path = os.path.join(mini.root, "sofar", "sofa_conventions", "conventions")
rows = fixture.SPEC[("GeneralTF", "2.0", False)]
rows = rows[:22] + [("MetaData", 1, None, "I", "double", "")] + rows[22:]
with open(os.path.join(path, "GeneralTF_2.0.csv"), "w") as f:
    f.write(fixture.csv_text(rows))
_compile_conventions(path)
with open(os.path.join(path, "GeneralTF_2.0.json")) as f:
    assert list(json.load(f)) == list(fixture.json_dict(rows))
''', "needs": "an entry whose name contains Data but does not start with it",
  "breaks": "the order of the compiled entries is wrong"},

 {"id": "C27-unnamed-row", "property": "C27",
  "edits": [(UPD, "        except:  # noqa: E722\n"
             "            raise ValueError((f\"Failed to parse line",
             "        except (ValueError, IndexError):\n"
             "            raise ValueError((f\"Failed to parse line")],
  "demo": '''
import os
import fixture
sf = mini.load()
from sofar.update_conventions import _compile_conventions
path = os.path.join(mini.root, "sofar", "sofa_conventions", "conventions")
with open(os.path.join(path, "GeneralTF_2.0.csv"), "a") as f:
    f.write("3\\t1\\tm\\tI\\tdouble\\t\\n")
_, _, err = mini.quiet(_compile_conventions, path)
assert isinstance(err, ValueError) and "GeneralTF_2.0.csv" in str(err), err
''', "needs": "a row with a number instead of a name",
  "breaks": "the error for such a row does not name the file"},

 {"id": "C28-emitter-meaning", "property": "C28",
  "edits": [(SOFA, "            'harmonic' in self.EmitterPosition_Type else \"emitter\"\n",
             "            'harmonic' in self.ReceiverPosition_Type else \"emitter\"\n")],
  "demo": '''
sf = mini.load()
s = sf.Sofa("FreeFieldHRIR")
out = mini.quiet(lambda: s.list_dimensions)[0]
assert "emitter spherical harmonics coefficients" in out
''', "needs": "spherical harmonics for emitters only",
  "breaks": "the meaning of dimension E is derived from the receivers"},

 {"id": "C28-tf-e", "property": "C28",
  "edits": [(STREAM, "        elif self._file.getncattr('DataType').startswith(\"TF\"):\n",
             "        elif self._file.getncattr('DataType') == \"TF\":\n")],
  "demo": '''
from netCDF4 import Dataset
sf = mini.load()
s = sf.Sofa("GeneralTF")
sf.write_sofa(mini.path("a"), s)
with Dataset(mini.path("a.sofa"), "a") as f:
    f.DataType = "TF-E"
with sf.SofaStream(mini.path("a.sofa")) as f:
    out, _, err = mini.quiet(lambda: f.list_dimensions)
assert err is None and "N = 1 frequencies" in out, (err, out)
''', "needs": "a file of data type TF-E",
  "breaks": "listing the dimensions of the stream raises an internal error"},

 {"id": "C29-exit-exception", "property": "C29",
  "edits": [(STREAM, "        self._file.close()\n",
             "        if args[0] is None:\n            self._file.close()\n")],
  "demo": '''
import os
sf = mini.load()
sf.write_sofa(mini.path("a"), sf.Sofa("GeneralTF"))
stream = sf.SofaStream(mini.path("a.sofa"))
try:
    with stream as f:
        f.Nothing
except AttributeError:
    pass
fds = [os.readlink("/proc/self/fd/" + x) for x in os.listdir("/proc/self/fd")
       if os.path.exists("/proc/self/fd/" + x)]
assert not [x for x in fds if x.endswith(".sofa")], fds
''', "needs": "an exception inside the with block",
  "breaks": "the file stays open if an exception occurs while streaming"},

 {"id": "C29-temporary", "property": "C29",
  "edits": [(UPD, "    with TemporaryDirectory() as temp:\n",
             "    with contextlib.nullcontext(mkdtemp()) as temp:\n"),
            (UPD, "from tempfile import TemporaryDirectory\n",
             "from tempfile import mkdtemp\n"),
            (UPD, "            print(\"... conventions already up to date.\")\n",
             "            print(\"... conventions already up to date.\")\n"
             "        shutil.rmtree(temp)\n")],
  "web": True,
  "demo": '''
import os
import tempfile
import fixture
import web
sf = mini.load()
tempfile.tempdir = mini.work
published = {}
for (n, v, d), rows in list(fixture.SPEC.items())[:2]:
    published["%s_%s.csv" % (n, v)] = (
        d, fixture.csv_text(rows + rows[-1:]).encode("windows-1252"))
for fault, answer in (({}, "n"), ({2: "connect"}, "y"), ({}, "y")):
    web.update(sf, web.Site(published, fault=fault), answer=answer)
    assert os.listdir(mini.work) == []
''', "needs": "an update that is declined or fails",
  "breaks": "temporary files are left behind"},

 {"id": "C30-cached-dimensions", "property": "C30",
  "edits": [(SOFA, "        issues = self.verify(issue_handling=\"return\")\n"
             "        if issues is not None and (",
             "        entries = {k: id(v) for k, v in self.__dict__.items()\n"
             "                   if not k.startswith(\"_\")}\n"
             "        if self.__dict__.get(\"_checked\") == entries:\n"
             "            return\n"
             "        issues = self.verify(\"return\")\n"
             "        self.__dict__[\"_checked\"] = entries\n"
             "        if issues is not None and (")],
  "demo": '''
import numpy as np
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.ListenerPosition = np.array([[1., 2.]])
assert mini.raises(ValueError, s.get_dimension, "M")
assert mini.raises(ValueError, s.get_dimension, "M")
''', "needs": "asking twice for a dimension of data that violate the standard",
  "breaks": "the second request returns a size although the first one was "
  "refused"},

 {"id": "C30-known-dimension", "property": "C30",
  "edits": [(SOFA, "        self._update_dimensions()\n\n"
             "        if dimension not in self._api:\n",
             "        if dimension not in getattr(self, \"_api\", {}) \\\n"
             "                or dimension in \"MRENS\":\n"
             "            self._update_dimensions()\n\n"
             "        if dimension not in self._api:\n")],
  "demo": '''
import numpy as np
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.add_variable("Mine", np.array([1., 2.]), "double", "P")
assert s.get_dimension("P") == 2
s.Mine = np.array([1., 2., 3.])
assert s.get_dimension("P") == 3
''', "needs": "a custom dimension that changes after it was asked for",
  "breaks": "the size before the change is reported"},
]
