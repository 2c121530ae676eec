"""Planted bugs, sixth part."""
SOFA, IO = "sofar/sofa.py", "sofar/io.py"
UTILS, UPD = "sofar/utils.py", "sofar/update_conventions.py"
STREAM = "sofar/sofastream.py"

SEEDS = [
 {"id": "C03-missing-single", "property": "C03",
  "edits": [(IO, '''        if np.ma.is_masked(value):
            warnings.warn(''', '''        if value.size > 1 and np.ma.is_masked(value):
            warnings.warn(''')],
  "demo": '''
import netCDF4
import numpy as np
sf = mini.load()
f = mini.path("a.sofa")
sf.write_sofa(f, sf.Sofa("GeneralFIR"))
with netCDF4.Dataset(f, "a") as d:
    d["Data.SamplingRate"][:] = netCDF4.default_fillvals["f8"]
s = sf.read_sofa(f, verbose=False)
assert np.ma.is_masked(s.Data_SamplingRate), s.Data_SamplingRate
''',
  "needs": "a variable with a single value that is missing",
  "breaks": "the fill value of netCDF is returned as data"},
 {"id": "C11-float-first", "property": "C11",
  "edits": [(SOFA, '''            value = np.atleast_2d(value)
            if value.size == 1:
                value = value.flatten()[0]
''', '''            try:
                # data are saved as double
                value = np.atleast_2d(np.asarray(value, dtype=float))
            except (TypeError, ValueError):
                value = np.atleast_2d(value)
            if value.size == 1:
                value = value.flatten()[0]
''')],
  "demo": '''
sf = mini.load()
s = sf.Sofa("GeneralFIR")
s.add_variable("Words", ["1", "20"], "string", "PS")
assert s.Words.tolist() == [["1", "20"]], s.Words
''',
  "needs": "lists of texts that are numbers, or integers above 2^53",
  "breaks": "texts become numbers, large integers change their value"},
 {"id": "C06-lower-dimension", "property": "C06",
  "edits": [(STREAM, '''        if dimension not in dims.keys():
            raise''', '''        dimension = str(dimension).upper()
        if dimension not in dims:
            raise''')],
  "demo": '''
sf = mini.load()
f = mini.path("a.sofa")
sf.write_sofa(f, sf.Sofa("GeneralFIR"))
with sf.SofaStream(f) as s:
    assert s.get_dimension("N")
    assert mini.raises(ValueError, s.get_dimension, "n")
''',
  "needs": "a dimension that differs from an existing one only in case",
  "breaks": "a size is returned for an unknown dimension"},
 {"id": "C17-dimension-first", "property": "C17",
  "edits": [(SOFA, '''                        if dim_act not in dim_ref:
                            current_error += \\
                                (f"- Dimension {dim} is of size {dim_act} "
                                 f"but must be {dim_str} if {key_sofar} "
                                 f"is {test}\\n")
''', '''                        if dim_act in dim_ref:
                            continue
                        current_error += \\
                            (f"- Dimension {dim} is of size {dim_act} "
                             f"but must be {dim_str} if {key_sofar} "
                             f"is {test}\\n")
                        break
''')],
  "demo": '''
import json
import os
sf = mini.load()
f = os.path.join(mini.root, "sofar", "sofa_conventions", "rules",
                 "rules.json")
with open(f) as file:
    rules = json.load(file)
s = sf.Sofa("GeneralFIR")
rules["GLOBAL:RoomType"] = {"value": [s.GLOBAL_RoomType], "specific": {
    s.GLOBAL_RoomType: {"_dimensions": {
        "N": {"value": [77], "value_str": "77"},
        "R": {"value": [88], "value_str": "88"}}}}}
with open(f, "w") as file:
    json.dump(rules, file)
text = s.verify(issue_handling="return")
assert "Dimension N is" in text and "Dimension R is" in text, text
''',
  "needs": "a rule for the sizes of two dimensions, both of wrong size",
  "breaks": "only the first of the dimensions is named"},
 {"id": "C07-last-axis", "property": "C07",
  "edits": [(SOFA, '''                if value.size < 7:
''', '''                if np.squeeze(value).shape[-1] < 7 and len(value) < 7:
''')],
  "demo": '''
import numpy as np
sf = mini.load()
s = sf.Sofa("GeneralFIR")
s.Data_IR = np.arange(12.).reshape(2, 1, 6)
text, _, err = mini.quiet(s.inspect)
assert err is None and "11." not in text, text
''',
  "needs": "more than six values with at most six along each axis",
  "breaks": "the report lists large arrays"},
]
