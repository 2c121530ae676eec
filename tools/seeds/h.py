"""Planted bugs, eighth part."""
SOFA, IO = "sofar/sofa.py", "sofar/io.py"
UTILS = "sofar/utils.py"

SEEDS = [
 {"id": "C23-listed-once", "property": "C23",
  "edits": [(UTILS, '''    # check if the convention exists
    if convention not in _get_conventions("name"):
        raise ValueError(
            f"Convention '{convention}' does not exist")

    name_version = _get_conventions("name_version")
''', '''    # check if the convention exists (list the installation only once)
    if not hasattr(_verify_convention_and_version, "known"):
        _verify_convention_and_version.known = _get_conventions("name_version")
    name_version = _verify_convention_and_version.known
    if convention not in [known[0] for known in name_version]:
        raise ValueError(
            f"Convention '{convention}' does not exist")

''')],
  "demo": '''
import json
import os
sf = mini.load()
folder = os.path.join(os.path.dirname(sf.__file__), "sofa_conventions",
                      "conventions")
s = sf.Sofa("GeneralFIR")
f = mini.path("a.sofa")
sf.write_sofa(f, s)
mini.quiet(sf.read_sofa, f)
with open(os.path.join(folder, "GeneralFIR_1.0.json")) as fh:
    table = json.load(fh)
table["GLOBAL:SOFAConventions"]["default"] = "Later"
with open(os.path.join(folder, "Later_1.0.json"), "w") as fh:
    json.dump(table, fh)
s = sf.Sofa("Later")
sf.write_sofa(f, s)
mini.quiet(sf.read_sofa, f)
assert sf.Sofa("Later", version="1.0").GLOBAL_SOFAConventions == "Later"
''',
  "needs": "a convention that is installed after conventions were used",
  "breaks": "conventions installed within the process are unknown"},
 {"id": "C03-kept-content", "property": "C03",
  "edits": [(IO, '''    return _read_netcdf(filename, False, False, mode="netcdf")
''', '''    # reading large files takes long, remember them while they do not change
    path = _append_suffix(filename)
    stat = os.stat(path) if os.path.isfile(path) else None
    key = (os.path.abspath(path), stat and (stat.st_size, stat.st_mtime_ns))
    if stat is None or _LAST_READ.get("key") != key:
        sofa = _read_netcdf(filename, False, False, mode="netcdf")
        _LAST_READ.update(key=key, sofa=sofa)
    return _LAST_READ["sofa"].copy()


_LAST_READ = {}
''')],
  "demo": '''
import os
sf = mini.load()
f = mini.path("a.sofa")
s = sf.Sofa("GeneralFIR")
for title in ("one", "two"):
    s.GLOBAL_Title = title
    sf.write_sofa(f, s)
    os.utime(f, (10 ** 9, 10 ** 9))
    assert sf.read_sofa_as_netcdf(f).GLOBAL_Title == title
''',
  "needs": "a file that is replaced by one of the same size and time stamp",
  "breaks": "the content of the previous file is returned"},
 {"id": "C30-dimensions-kept", "property": "C30",
  "edits": [(SOFA, '''        # Check if the dimensions can be updated
        self._update_dimensions()

        if dimension not in self._api:
''', '''        # Check if the dimensions can be updated (if any data changed)
        current = {key: id(value) for key, value in self.__dict__.items()
                   if not key.startswith("_")}
        last = self.__dict__.get("_last_data")
        if last is None or last[0] != current:
            self._update_dimensions()
            self.__dict__["_last_data"] = (current, dict(self._api))

        if dimension not in self._api:
''')],
  "demo": '''
import numpy as np
sf = mini.load()
s = sf.Sofa("GeneralFIR")
s.Data_IR = np.ones((2, 1, 6))
assert s.get_dimension("N") == 6
s.Data_IR.resize((2, 1, 9), refcheck=False)
assert s.get_dimension("N") == 9
''',
  "needs": "an array that changes in place after a dimension was asked for",
  "breaks": "the dimensions before the change are reported"},
 {"id": "C01-character-dimension", "property": "C01",
  "edits": [(IO, '''                dtype = "string" if file[var].datatype == "S1" else "double"
''', '''                dtype = "string" if "S" in file[var].dimensions else "double"
''')],
  "demo": '''
import netCDF4
import numpy as np
sf = mini.load()
f = mini.path("a.sofa")
sf.write_sofa(f, sf.Sofa("GeneralFIR"))
with netCDF4.Dataset(f, "a") as d:
    d.createDimension("STRING", 3)
    d.createVariable("Mine", "S1", ("I", "STRING"))
    d["Mine"][:] = np.array([[b"a", b"b", b"c"]])
s = sf.read_sofa(f, verify=False, verbose=False)
sf.write_sofa(f, s)
assert sf.read_sofa(f, verbose=False).Mine == "abc"
''',
  "needs": "a file of another program that uses its own name for the dimension of characters",
  "breaks": "texts are taken for numbers and can not be saved again"},
]
