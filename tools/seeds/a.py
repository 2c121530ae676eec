IO, SOFA, STREAM, UTILS, UPD = ["sofar/%s.py" % f for f in (
    "io", "sofa", "sofastream", "utils", "update_conventions")]

SEEDS = [
 {"id": "C01-significant-digits", "property": "C01",
  "edits": [(IO, "dtype, shape,\n                zlib=use_zlib, complevel=compression)",
             "dtype, shape,\n                zlib=use_zlib, complevel=compression,\n"
             "                least_significant_digit=12\n"
             "                if dtype == \"f8\" and compression > 8 else None)")],
  "demo": '''
import numpy as np
sf = mini.load()
for c in (0, 4, 9):
    s = sf.Sofa("GeneralTF")
    s.Data_Real = np.array([[[1 / 3]]])
    sf.write_sofa(mini.path("a"), s, compression=c)
    assert sf.read_sofa(mini.path("a")).Data_Real == 1 / 3, c
''', "needs": "compression level 9 and values that are no short decimals",
  "breaks": "values are rounded when saving with the highest compression"},

 {"id": "C01-empty-custom", "property": "C01",
  "edits": [(IO, 'keys = [key for key in all_keys if key.startswith("GLOBAL_")]',
             'keys = [key for key in all_keys if key.startswith("GLOBAL_")\n'
             '                and (getattr(sofa, key)\n'
             '                     or sofa._convention[key]["default"] == "")]')],
  "demo": '''
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.add_attribute("GLOBAL_Extra", "")
sf.write_sofa(mini.path("a"), s)
r = sf.read_sofa(mini.path("a"), verbose=False)
assert r.GLOBAL_Extra == ""
assert sf.equals(s, r)
''', "needs": "a global attribute with a default (or a custom one) that is "
  "empty text", "breaks": "empty attributes get lost when saving"},

 {"id": "C02-single", "property": "C02",
  "edits": [(IO, 'netcdf_dtype = "f8"',
             'netcdf_dtype = "f4" if value.dtype == np.float32 else "f8"'),
            (IO, 'if dtype == "f8":', 'if dtype != "S1":')],
  "demo": '''
import numpy as np
from netCDF4 import Dataset
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.Data_Real = np.array([[[1.5]]], dtype="f4")
sf.write_sofa(mini.path("a"), s)
with Dataset(mini.path("a.sofa")) as f:
    assert f["Data.Real"].dtype == "f8"
''', "needs": "single precision data",
  "breaks": "single precision data are not stored as double"},

 {"id": "C02-data-name", "property": "C02",
  "edits": [(IO, 'key.replace("Data_", "Data."), dtype, shape,',
             '"Data." + key[4:].lstrip("_")\n'
             '                if key.startswith("Data") and key != "Data"'
             ' else key, dtype, shape,')],
  "demo": '''
from netCDF4 import Dataset
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.add_variable("DataQuality", 3, "double", "I")
sf.write_sofa(mini.path("a"), s)
with Dataset(mini.path("a.sofa")) as f:
    assert "DataQuality" in f.variables
    assert "Data.Real" in f.variables
''', "needs": "a custom variable whose name starts with Data",
  "breaks": "custom variables like DataQuality are renamed in the file"},

 {"id": "C03-partly-missing", "property": "C03",
  "edits": [(IO, "if np.ma.is_masked(value):",
             "if np.ma.is_masked(value.ravel()[-1:]):")],
  "demo": '''
import warnings
import numpy as np
from netCDF4 import Dataset
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.N = np.array([1., 2., 3.])
s.Data_Real = s.Data_Imag = np.ones((1, 1, 3))
sf.write_sofa(mini.path("a"), s)
with Dataset(mini.path("a.sofa"), "a") as f:
    f["Data.Real"][0, 0, 1] = np.ma.masked
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    r = sf.read_sofa(mini.path("a"), verify=False)
assert np.ma.getmaskarray(r.Data_Real).tolist() == [[[False, True, False]]]
assert any("missing" in str(x.message) for x in w)
''', "needs": "a variable of which only a part is missing",
  "breaks": "missing data are returned as fill values without warning"},

 {"id": "C03-mandatory-default", "property": "C03",
  "edits": [(IO, "        if attr not in all_attr:\n",
             "        if attr not in all_attr and not sofa._mandatory(\n"
             "                sofa._convention[attr][\"flags\"]):\n")],
  "demo": '''
from netCDF4 import Dataset
sf = mini.load()
s = sf.Sofa("GeneralTF")
sf.write_sofa(mini.path("a"), s)
with Dataset(mini.path("a.sofa"), "a") as f:
    f.delncattr("Title")
    f["SourcePosition"].delncattr("Units")
r = sf.read_sofa(mini.path("a"), verify=False)
assert not hasattr(r, "GLOBAL_Title")
assert not hasattr(r, "SourcePosition_Units")
''', "needs": "a file without a mandatory entry, read without verification",
  "breaks": "mandatory entries that are not in the file are invented"},

 {"id": "C04-verify-late", "property": "C04",
  "edits": [(IO, '    if verify:\n        sofa.verify(mode="write")\n', ''),
            (IO, '    with Dataset(filename, "w", format="NETCDF4") as file:\n',
             '    with Dataset(filename, "w", format="NETCDF4") as file:\n\n'
             '        if verify:\n            sofa.verify(mode="write")\n')],
  "demo": '''
import os
sf = mini.load()
s = sf.Sofa("GeneralTF")
sf.write_sofa(mini.path("a"), s)
before = open(mini.path("a.sofa"), "rb").read()
s.SourcePosition_Units = "Metre"
assert mini.raises(ValueError, sf.write_sofa, mini.path("a"), s)
assert open(mini.path("a.sofa"), "rb").read() == before
assert mini.raises(ValueError, sf.write_sofa, mini.path("b"), s)
assert not os.path.exists(mini.path("b.sofa"))
''', "needs": "a refused save to an existing file",
  "breaks": "the target file is truncated before the data are verified"},

 {"id": "C04-uncompressed", "property": "C04",
  "edits": [(IO, '        sofa.verify(mode="write")',
             '        sofa.verify(mode="write" if use_zlib else "read")')],
  "demo": '''
import os
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.SourcePosition_Units = "Metre"
for c in (4, 0):
    assert mini.raises(ValueError, sf.write_sofa, mini.path("a"), s,
                       compression=c)
    assert not os.path.exists(mini.path("a.sofa"))
''', "needs": "compression 0 and data that violate a rule for writing only",
  "breaks": "write rules are skipped when saving without compression"},

 {"id": "C05-expandvars", "property": "C05",
  "edits": [(IO, '    with Dataset(filename, "w", format="NETCDF4") as file:\n',
             '    with Dataset(os.path.expandvars(filename), "w",\n'
             '                 format="NETCDF4") as file:\n')],
  "demo": '''
import os
sf = mini.load()
os.environ["SUBJECT"] = "other"
s = sf.Sofa("GeneralTF")
sf.write_sofa(mini.path("a_$SUBJECT"), s)
assert os.listdir(mini.work) == ["a_$SUBJECT.sofa"]
sf.read_sofa(mini.path("a_$SUBJECT"))
''', "needs": "a name containing $ and the name of an environment variable",
  "breaks": "the file is saved under another name than the one given"},

 {"id": "C05-normalised", "property": "C05",
  "edits": [(IO, '    with Dataset(filename, "w", format="NETCDF4") as file:\n',
             '    with Dataset(unicodedata.normalize("NFC", str(filename)), "w",\n'
             '                 format="NETCDF4") as file:\n'),
            (IO, "import os\n", "import os\nimport unicodedata\n")],
  "demo": '''
import os
sf = mini.load()
s = sf.Sofa("GeneralTF")
sf.write_sofa(mini.path("e\\u0301"), s)
s.GLOBAL_Title = "other"
sf.write_sofa(mini.path("\\u00e9"), s)
assert len(os.listdir(mini.work)) == 2
assert sf.read_sofa(mini.path("e\\u0301")).GLOBAL_Title == ""
''', "needs": "a name containing combining characters",
  "breaks": "two different names share a file"},

 {"id": "C06-mask", "property": "C06",
  "edits": [(STREAM, "        return self\n",
             "        stream = self\n"
             "        stream._file.set_auto_mask(False)\n"
             "        return stream\n")],
  "demo": '''
import numpy as np
from netCDF4 import Dataset
sf = mini.load()
s = sf.Sofa("GeneralTF")
sf.write_sofa(mini.path("a"), s)
with Dataset(mini.path("a.sofa"), "a") as f:
    f["Data.Real"][0, 0, 0] = np.ma.masked
with sf.SofaStream(mini.path("a.sofa")) as f:
    assert np.ma.is_masked(f.Data_Real[:])
''', "needs": "missing data in the file",
  "breaks": "the stream returns fill values for missing data"},

 {"id": "C06-dimension-cache", "property": "C06",
  "edits": [(STREAM, "        dims = self._file.dimensions\n",
             "        if '_dims' not in self.__dict__:\n"
             "            self._dims = {k: v.size for k, v\n"
             "                          in self._file.dimensions.items()}\n"
             "        dims = self._dims\n"),
            (STREAM, "        return dims[dimension].size\n",
             "        return dims[dimension]\n")],
  "demo": '''
import numpy as np
sf = mini.load()
s = sf.Sofa("GeneralTF")
stream = sf.SofaStream(mini.path("a.sofa"))
for n in (1, 2, 3):
    s.N = np.arange(float(n))
    s.Data_Real = s.Data_Imag = np.ones((1, 1, n))
    sf.write_sofa(mini.path("a"), s)
    with stream as f:
        assert f.get_dimension("N") == n
''', "needs": "one stream object used for two blocks with a changed file",
  "breaks": "the sizes of the file of the first block are reported"},

 {"id": "C07-once", "property": "C07",
  "edits": [(SOFA, '''        # write to text file
        if file is not None:
''', '''        # write to text file (once)
        if file is not None and not os.path.isfile(file):
''')],
  "demo": '''
sf = mini.load()
s = sf.Sofa("GeneralTF")
for n in (1, 2):
    out = mini.quiet(s.inspect, mini.path("a.txt"))[0]
    assert open(mini.path("a.txt")).read().strip() == out.strip()
    s.GLOBAL_Title = "another"
''', "needs": "writing the report to a file that exists",
  "breaks": "the file keeps an older report"},

 {"id": "C07-six", "property": "C07",
  "edits": [(SOFA, "                if value.size < 7:\n",
             "                if value.size < 7 and value.ndim < 4:\n")],
  "demo": '''
import numpy as np
sf = mini.load()
s = sf.Sofa("GeneralFIR-E")
s.Data_IR = np.arange(4.).reshape(1, 1, 2, 2)
s.EmitterPosition = np.zeros((2, 3, 1))
s.Data_Delay = np.zeros((1, 1, 1))
out = mini.quiet(s.inspect)[0]
lines = out.splitlines()
i = [i for i, x in enumerate(lines) if x.startswith("Data_IR")][0]
assert "0. 1." in lines[i + 1], lines[i:i + 2]
''', "needs": "a four dimensional variable with at most six values",
  "breaks": "the values of small four dimensional variables are not shown"},

 {"id": "C08-latest-text", "property": "C08",
  "edits": [(SOFA, "            versions = np.array([float(v) for v in versions])\n"
             "            path = path[np.argmax(versions)]\n",
             "            path = path[versions.index(max(versions))]\n")],
  "demo": '''
import fixture
spec = dict(fixture.SPEC)
rows = spec[("GeneralTF", "2.0", False)]
spec[("GeneralTF", "10.0", False)] = [
    r if r[0] != "GLOBAL:SOFAConventionsVersion" else
    (r[0], "10.0") + r[2:] for r in rows]
sf = mini.load(spec=spec)
assert sf.Sofa("GeneralTF").GLOBAL_SOFAConventionsVersion == "10.0"
''', "needs": "a convention with a version of two digits",
  "breaks": "version 2.0 is taken for newer than 10.0"},

 {"id": "C08-last-combination", "property": "C08",
  "edits": [(SOFA, 'ndim = len(self._convention[key]["dimensions"].split(", ")[0])',
             'ndim = len(self._convention[key]["dimensions"].split(", ")[-1])')],
  "demo": '''
import fixture
spec = dict(fixture.SPEC)
spec[("GeneralTF", "2.0", False)] = spec[("GeneralTF", "2.0", False)] + [
    ("MidiNote", [0, 0], None, "IR, I", "double", "")]
sf = mini.load(spec=spec)
assert sf.Sofa("GeneralTF", verify=False).MidiNote.ndim == 2
''', "needs": "a convention with an entry whose dimension combinations have "
  "different lengths",
  "breaks": "the default gets the number of dimensions of the last combination"},

 {"id": "C09-delete-rm", "property": "C09",
  "edits": [(SOFA, '                not self._mandatory(self._convention[name]["flags"]):\n'
             "            super().__delattr__(name)",
             '                self._convention[name]["flags"] != "m":\n'
             "            super().__delattr__(name)")],
  "demo": '''
sf = mini.load()
s = sf.Sofa("GeneralTF")
for name in ("GLOBAL_Title", "GLOBAL_APIName", "Data_Real"):
    assert mini.raises(TypeError, s.delete, name), name
    assert hasattr(s, name)
''', "needs": "deleting an entry that is read only as well as mandatory",
  "breaks": "entries that are mandatory and read only can be deleted"},

 {"id": "C09-read-only-flag", "property": "C09",
  "edits": [(SOFA, 'elif "r" not in flags:', 'elif flags != "rm":')],
  "demo": '''
import fixture
spec = dict(fixture.SPEC)
spec[("GeneralTF", "2.0", False)] = [
    (r[0], "fixed", "r") + r[3:] if r[0] == "GLOBAL:Origin" else r
    for r in spec[("GeneralTF", "2.0", False)]]
sf = mini.load(spec=spec)
s = sf.Sofa("GeneralTF")
assert mini.raises(TypeError, setattr, s, "GLOBAL_Origin", "x")
assert s.GLOBAL_Origin == "fixed"
''', "needs": "an optional read only entry (flag r)",
  "breaks": "optional read only entries can be changed"},

 {"id": "C10-protected-setter", "property": "C10",
  "edits": [(SOFA, "        if not isinstance(value, bool):\n"
             '            raise ValueError("Sofa.protected can only be True or False")\n'
             "        self._protected = value\n",
             "        self._protected = bool(value)\n"
             "        if not isinstance(value, bool):\n"
             '            raise ValueError("Sofa.protected can only be True or False")\n')],
  "demo": '''
sf = mini.load()
s = sf.Sofa("GeneralTF")
assert mini.raises(ValueError, setattr, s, "protected", 0)
assert s.protected
assert mini.raises(TypeError, s.delete, "GLOBAL_Title")
''', "needs": "refused assignment of a falsy value to protected",
  "breaks": "the refused assignment switches the protection off"},

 {"id": "C10-delete-twice", "property": "C10",
  "edits": [(SOFA, "        if not hasattr(self, name):\n"
             '            raise TypeError(f"{name} is not an attribute")\n',
             "        if name not in self.__dict__:\n"
             "            self._convention.pop(name, None)\n"
             '            raise TypeError(f"{name} is not an attribute")\n')],
  "demo": '''
sf = mini.load()
out = []
for twice in (False, True):
    s = sf.Sofa("SimpleHeadphoneIR")
    s.delete("SourceManufacturer")
    if twice:
        assert mini.raises(TypeError, s.delete, "SourceManufacturer")
    s.add_variable("SourceManufacturer", ["a"], "string", "MS")
    out.append(mini.quiet(s.info, "SourceManufacturer")[0])
assert out[0] == out[1], out
''', "needs": "deleting an optional entry twice and adding it again",
  "breaks": "the refused second deletion removes the entry from the "
  "convention so that it becomes a custom one"},
]

SEEDS += [
 {"id": "C11-squeeze", "property": "C11",
  "edits": [(SOFA, "            value = np.atleast_2d(value)\n",
             "            value = np.atleast_2d(np.squeeze(value))\n")],
  "demo": '''
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.ReceiverPosition = [[[1], [2], [3]]]
assert s.ReceiverPosition.shape == (1, 3, 1)
s.ReceiverPosition = [[[1, 2, 3]], [[4, 5, 6]]]
assert s.ReceiverPosition.shape == (2, 1, 3)
''', "needs": "nested lists with a singleton dimension in the middle or at "
  "the end", "breaks": "singleton dimensions of assigned lists get lost"},

 {"id": "C11-zero-dim", "property": "C11",
  "edits": [(SOFA, "        if not isinstance(value, (str, dict, np.ndarray)) \\\n"
             '                and name != "protected":\n',
             "        if not isinstance(value, (str, dict)) \\\n"
             "                and not getattr(value, \"ndim\", 0) \\\n"
             '                and name != "protected":\n')],
  "demo": '''
import numpy as np
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.N = np.array(3.)
assert isinstance(s.N, np.ndarray) and s.N.shape == ()
s.N = np.array([3.])
assert s.N.shape == (1,)
''', "needs": "an array without dimensions",
  "breaks": "an array without dimensions is changed to a scalar"},

 {"id": "C12-optional-name", "property": "C12",
  "edits": [(SOFA, "        if hasattr(self, name):\n"
             '            raise ValueError(f"Entry {name} already exists")\n',
             "        if hasattr(self, name) or name in self._convention:\n"
             '            raise ValueError(f"Entry {name} already exists")\n')],
  "demo": '''
sf = mini.load()
s = sf.Sofa("SimpleHeadphoneIR")
s.delete("SourceModel")
s.add_variable("SourceModel", [["a"]], "string", "MS")
s.verify()
assert s.SourceModel == "a"
''', "needs": "adding an optional entry of the convention that was deleted",
  "breaks": "optional entries can not be added"},

 {"id": "C12-unprotected-delete", "property": "C12",
  "edits": [(SOFA, "            # check if custom field as to be deleted\n"
             '            if hasattr(self, "_custom"):\n',
             "            # check if custom field as to be deleted\n"
             '            if hasattr(self, "_custom") and self.protected:\n')],
  "demo": '''
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.add_variable("Temp", 1, "double", "I")
s.protected = False
s.delete("Temp")
s.protected = True
s.verify()
s.add_variable("Temp", ["a"], "string", "IS")
s.verify()
''', "needs": "deleting a custom entry of an unprotected object",
  "breaks": "the custom entry remains registered after its deletion"},

 {"id": "C13-shared-convention", "property": "C13",
  "edits": [(SOFA, "        # read convention from json file\n"
             '        with open(path, "r") as file:\n'
             "            convention = json.load(file)\n",
             "        # read convention from json file\n"
             "        if path in self._cache:\n"
             "            return self._cache[path]\n"
             '        with open(path) as file:\n'
             "            convention = json.load(file)\n"),
            (SOFA, "            key.replace('.', '_'): value for key, value in convention.items()}\n\n"
             "        return convention\n",
             "            key.replace('.', '_'): value for key, value in convention.items()}\n\n"
             "        self._cache[path] = convention\n"
             "        return convention\n"),
            (SOFA, "    _read_only_attr = []\n",
             "    _read_only_attr = []\n    # conventions that were loaded before\n"
             "    _cache = {}\n")],
  "demo": '''
sf = mini.load()
a = sf.Sofa("GeneralTF")
b = sf.Sofa("GeneralTF")
a.add_variable("Temp", 1, "double", "I")
a.verify()
c = sf.Sofa("GeneralTF", verify=False)
assert not hasattr(c, "Temp")
assert mini.quiet(b.add_missing)[2] is None
assert not hasattr(b, "Temp")
b.add_variable("Temp", ["a"], "string", "IS")
b.verify()
''', "needs": "two objects of a convention, one with custom data",
  "breaks": "custom data of one object appear in others"},

 {"id": "C13-shared-custom", "property": "C13",
  "edits": [(SOFA, "        return deepcopy(self)\n",
             "        other = copy(self)\n"
             "        for key, value in self.__dict__.items():\n"
             "            if isinstance(value, np.ndarray):\n"
             "                other.__dict__[key] = value.copy()\n"
             "        return other\n"),
            (SOFA, "from copy import deepcopy\n", "from copy import copy\n")],
  "demo": '''
sf = mini.load()
a = sf.Sofa("GeneralTF")
a.add_variable("Temp", 1, "double", "I")
b = a.copy()
b.add_variable("Other", 1, "double", "I")
a.verify()
b.delete("Temp")
a.verify()
assert a.Temp == 1
''', "needs": "a copy of an object with custom data and a later addition",
  "breaks": "original and copy share the register of custom data"},

 {"id": "C14-optional-all", "property": "C14",
  "edits": [(SOFA, "            add_data = (is_mandatory and mandatory) or \\\n"
             "                (not is_mandatory and optional)\n",
             "            add_data = (is_mandatory and mandatory) or optional\n")],
  "demo": '''
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.protected = False
s.delete("GLOBAL_Title")
s.protected = True
s.delete("GLOBAL_Origin")
mini.quiet(s.add_missing, mandatory=False, optional=True)
assert hasattr(s, "GLOBAL_Origin")
assert not hasattr(s, "GLOBAL_Title")
''', "needs": "adding only optional data while mandatory data are missing",
  "breaks": "mandatory data are added although they were not requested"},

 {"id": "C14-empty-text", "property": "C14",
  "edits": [(SOFA, "            if key not in keys and add_data:\n",
             "            if add_data and (key not in keys or\n"
             "                             np.array_equal(getattr(self, key), \"\")):\n"),
            (SOFA, "                setattr(self, key, self._convention[key][\"default\"])\n"
             "                added += f\"- {key} \"\n",
             "                if key in keys and not self._convention[key][\"default\"]:\n"
             "                    continue\n"
             "                setattr(self, key, self._convention[key][\"default\"])\n"
             "                added += f\"- {key} \"\n")],
  "demo": '''
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.GLOBAL_License = ""
mini.quiet(s.add_missing)
assert s.GLOBAL_License == ""
''', "needs": "an entry with a default that was set to empty text",
  "breaks": "entries that are present but empty are overwritten"},

 {"id": "C15-complex", "property": "C15",
  "edits": [(SOFA, "(isinstance(value, (np.ndarray, np.number)) and\n"
             "                         value.dtype.kind not in ['i'",
             "(isinstance(value, np.ndarray) and\n"
             "                         value.dtype.kind not in ['i'")],
  "demo": '''
import numpy as np
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.Data_Real = np.complex128(1 + 1j)
assert mini.raises(ValueError, s.verify)
''', "needs": "a complex number that is no array",
  "breaks": "complex numbers pass verification"},

 {"id": "C15-read-only-missing", "property": "C15",
  "edits": [(SOFA, "            if self._mandatory(self._convention[key][\"flags\"]) \\\n"
             "                    and key not in keys:\n",
             "            if self._mandatory(self._convention[key][\"flags\"]) \\\n"
             "                    and key not in keys \\\n"
             "                    and not self._read_only(\n"
             "                        self._convention[key][\"flags\"]):\n")],
  "demo": '''
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.protected = False
s.delete("GLOBAL_APIVersion")
s.protected = True
assert mini.raises(ValueError, s.verify)
''', "needs": "a missing entry that is mandatory and read only",
  "breaks": "missing read only entries are not detected"},

 {"id": "C16-broadcast", "property": "C16",
  "edits": [(SOFA, "                if shape_compare == shape_ref:\n",
             "                if shape_compare == shape_ref or \\\n"
             "                        (len(shape_ref) > 2 and shape_compare[1:] ==\n"
             "                         (1, ) + shape_ref[2:]\n"
             "                         and shape_compare[0] == shape_ref[0]):\n")],
  "demo": '''
import numpy as np
sf = mini.load()
s = sf.Sofa("SimpleFreeFieldHRTF")
s.N = np.arange(2.)
s.Data_Real = np.ones((1, 2, 2))
s.Data_Imag = np.ones((1, 1, 2))
assert mini.raises(ValueError, s.verify)
s.Data_Imag = np.ones((1, 2, 2))
s.verify()
''', "needs": "a three dimensional variable whose second dimension has size "
  "one instead of the size of the dimension",
  "breaks": "variables of wrong shape pass verification"},

 {"id": "C16-two-combinations", "property": "C16",
  "edits": [(SOFA, "            for dim in dimensions.split(\", \"):\n",
             "            for dim in dimensions.split(\", \")[:3]:\n")],
  "demo": '''
import numpy as np
sf = mini.load()
s = sf.Sofa("GeneralFIR-E")
s.Data_IR = np.ones((2, 1, 2, 3))
s.EmitterPosition = np.ones((3, 3, 1))
s.Data_Delay = np.ones((2, 1, 3))
s.verify()
''', "needs": "a variable stored in the last of four dimension combinations",
  "breaks": "valid variables are refused"},

 {"id": "C17-general-break", "property": "C17",
  "edits": [(SOFA, "                    current_error += (f\"- {key_dep} must be given if \"\n"
             "                                      f\"{key_sofar} is in SOFA object\\n\")\n"
             "                    continue\n",
             "                    current_error += (f\"- {key_dep} must be given if \"\n"
             "                                      f\"{key_sofar} is in SOFA object\\n\")\n"
             "                    break\n")],
  "demo": '''
import fixture
rules = dict(fixture.RULES)
rules["GLOBAL:Title"] = {"value": None, "general": ["A", "B"]}
sf = mini.load(rules=rules)
s = sf.Sofa("GeneralTF", verify=False)
_, issues, _ = mini.quiet(s.verify, issue_handling="return")
assert "- A must" in issues and "- B must" in issues
''', "needs": "a rule that requires two entries, both missing",
  "breaks": "only the first missing entry is named"},

 {"id": "C17-size-range", "property": "C17",
  "edits": [(SOFA, "                        if dim_act not in dim_ref:\n",
             "                        if not dim_ref[0] <= dim_act <= dim_ref[-1]:\n")],
  "demo": '''
import numpy as np
sf = mini.load()
s = sf.Sofa("GeneralSOS")
for n, good in ((6, True), (12, True), (8, False), (3, False)):
    s.Data_SOS = np.ones((1, 1, n))
    assert mini.raises(ValueError, s.verify) != good, n
''', "needs": "a dimension size between the allowed sizes",
  "breaks": "sizes between the allowed sizes are accepted"},

 {"id": "C18-order", "property": "C18",
  "edits": [(SOFA, "        for unit_test, unit_ref in zip(units_test, units_ref):\n",
             "        for unit_test, unit_ref in zip(\n"
             "                units_test[:1] + sorted(units_test[1:]), units_ref):\n")],
  "demo": '''
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.SourcePosition_Type = "spherical"
s.SourcePosition_Units = "degree, metre, degree"
assert mini.raises(ValueError, s.verify)
s.SourcePosition_Units = "degree, degree, metre"
s.verify()
''', "needs": "units in wrong order after the first",
  "breaks": "units in wrong order are accepted"},

 {"id": "C18-custom-upper", "property": "C18",
  "edits": [(SOFA, "            keys = [k for k in self.__dict__.keys() if k.endswith(\"Units\")]\n",
             "            keys = [k.replace(\".\", \"_\").replace(\":\", \"_\") for k in rules]\n"
             "            keys = [k for k in self.__dict__.keys()\n"
             "                    if k.endswith(\"Units\") and k in keys]\n")],
  "demo": '''
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.add_variable("Height", 1, "double", "I")
s.add_attribute("Height_Units", "Metre")
s.verify(mode="read")
assert mini.raises(ValueError, s.verify, mode="write")
''', "needs": "units of a custom variable in upper case",
  "breaks": "upper case units of custom variables are accepted for writing"},

 {"id": "C19-global-prefix", "property": "C19",
  "edits": [(SOFA, "                if key.replace(\"GLOBAL_\", \"\") in normative:\n",
             "                if key in normative:\n")],
  "demo": '''
sf = mini.load()
s = sf.Sofa("GeneralTF")
s.add_attribute("GLOBAL_SourcePosition", "x")
assert mini.raises(ValueError, s.verify)
''', "needs": "a global attribute named like a variable of the convention",
  "breaks": "custom attributes repeating a name of the convention are "
  "accepted"},

 {"id": "C19-one-underscore", "property": "C19",
  "edits": [(SOFA, "            if \"_\" in key.replace(\"Data_\", \"\"):\n",
             "            if key.count(\"_\") > 1:\n")],
  "demo": '''
from netCDF4 import Dataset
sf = mini.load()
sf.write_sofa(mini.path("a"), sf.Sofa("GeneralTF"))
with Dataset(mini.path("a.sofa"), "a") as f:
    f.createVariable("My_Var", "f8", ["I"])[:] = 1
s = sf.read_sofa(mini.path("a"), verify=False, verbose=False)
assert mini.raises(ValueError, s.verify)
''', "needs": "a file with a variable whose name has one underscore",
  "breaks": "variable names with an underscore are accepted"},

 {"id": "C20-text-version", "property": "C20",
  "edits": [(IO, "            if parse(current) < parse(latest):\n",
             "            if current < latest:\n")],
  "demo": '''
import warnings
import fixture
spec = dict(fixture.SPEC)
rows = spec[("GeneralTF", "2.0", False)]
spec[("GeneralTF", "10.0", False)] = [
    r if r[0] != "GLOBAL:SOFAConventionsVersion" else
    (r[0], "10.0") + r[2:] for r in rows]
sf = mini.load(spec=spec)
for v in ("2.0", "10.0"):
    s = sf.Sofa("GeneralTF", version=v)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        sf.write_sofa(mini.path("a"), s)
    assert any("outdated" in str(x.message) for x in w) == (v == "2.0")
''', "needs": "a version of two digits",
  "breaks": "outdated versions are not reported when saving"},

 {"id": "C20-exclusive", "property": "C20",
  "edits": [(SOFA, "        # warn if preliminary conventions versions are used\n"
             "        if float(self.GLOBAL_SOFAConventionsVersion) < 1.0:\n",
             "        # warn if preliminary conventions versions are used\n"
             "        elif float(self.GLOBAL_SOFAConventionsVersion) < 1.0:\n")],
  "demo": '''
sf = mini.load()
s = sf.Sofa("SimpleFreeFieldTF", version="0.4")
_, issues, _ = mini.quiet(s.verify, issue_handling="return", mode="read")
assert "deprecat" in issues and "preliminary" in issues
''', "needs": "a deprecated convention in a preliminary version",
  "breaks": "the warning about the preliminary version is missing"},
]
