"""Planted bugs, fourth part."""
SOFA, IO = "sofar/sofa.py", "sofar/io.py"
UTILS, UPD = "sofar/utils.py", "sofar/update_conventions.py"
STREAM = "sofar/sofastream.py"

FAILING = '''
import builtins
import os
sf = mini.load()


class Failing:
    """The n-th opened file of the conventions can not be opened."""

    def __init__(self, n=None, name="sofa_conventions"):
        self.n, self.name, self.fired = n, name, False

    def __enter__(self):
        self.original, count = builtins.open, [0]

        def opened(file, *args, **kwargs):
            if self.name in str(file):
                count[0] += 1
                if count[0] == self.n:
                    self.fired = True
                    raise OSError(24, "too many open files")
            return self.original(file, *args, **kwargs)
        builtins.open = opened
        return self

    def __exit__(self, *args):
        builtins.open = self.original


def each(make, operation, name="sofa_conventions", look=None):
    """Let each opened file fail; the failure must be reported."""
    n = 0
    while True:
        n += 1
        obj = make()
        with Failing(n, name) as f:
            _, res, err = mini.quiet(operation, obj)
        if not f.fired:
            assert n > 1
            return
        assert isinstance(err, OSError), (n, res, err)
        if look is not None:
            look(obj)
'''

SEEDS = [
 {"id": "C32-rules", "property": "C32",
  "edits": [(SOFA, '''        with open(os.path.join(base, "deprecations.json"), "r") as file:
            deprecations = json.load(file)
''', '''        try:
            with open(os.path.join(base, "deprecations.json"), "r") as file:
                deprecations = json.load(file)
        except OSError:
            # older versions of the rules come without deprecations
            deprecations = {"GLOBAL:SOFAConventions": {}}
''')],
  "demo": FAILING + '''
each(lambda: sf.Sofa("SimpleFreeFieldTF", version="1.0", verify=False),
     lambda o: o.verify(), "rules")
''',
  "needs": "a failure when opening one of the four rule files",
  "breaks": "the failure is hidden and verification uses other rules"},

 {"id": "C32-unreadable", "property": "C32",
  "edits": [(IO, '''            value = _format_value_from_netcdf(file[var][:], var)
            all_attr.append(var.replace(".", "_"))
''', '''            try:
                value = _format_value_from_netcdf(file[var][:], var)
            except RuntimeError:
                warnings.warn(f"Entry {var} can not be read", stacklevel=3)
                continue
            all_attr.append(var.replace(".", "_"))
''')],
  "demo": '''
import numpy as np
sf = mini.load()
s = sf.Sofa("GeneralFIR")
s.add_variable("Mine", np.random.default_rng(1).standard_normal(500),
               "double", "P")
p = mini.path("a.sofa")
mini.quiet(sf.write_sofa, p, s)
data = open(p, "rb").read()
# compressed blocks
n, found = 0, 0
while True:
    n = data.find(b"\\x78\\x5e", n + 1)
    if n < 0:
        break
    damaged = bytearray(data)
    damaged[n:n + 2] = b"\\x00\\x00"
    q = mini.path("b.sofa")
    open(q, "wb").write(damaged)
    _, r, err = mini.quiet(sf.read_sofa, q)
    if err is None:
        assert sf.equals(r, s, False), "damaged data were dropped"
    else:
        found += 1
assert found
''',
  "needs": "a damaged block of data that verification does not miss",
  "breaks": "reading drops the variable instead of failing"},

 {"id": "C32-add-missing", "property": "C32",
  "edits": [(SOFA, '''        # initialize
        self._reset_convention()
        added = "Added''', '''        # initialize (default values of read only data are written as well)
        self.protected = False
        self._reset_convention()
        added = "Added'''),
   (SOFA, '''        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]

        self.protected = False

        # loop data in convention
''', '''        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]

        # loop data in convention
''')],
  "demo": FAILING + '''
def look(obj):
    assert obj.protected


def make():
    s = sf.Sofa("GeneralFIR")
    s.delete("GLOBAL_Comment")
    return s


each(make, lambda o: o.add_missing(), look=look)
''',
  "needs": "add_missing fails while loading the convention",
  "breaks": "the object stays unprotected"},

 {"id": "C32-forgotten", "property": "C32",
  "edits": [(SOFA, '''        convention = self._load_convention(
            c_current, v_current)
        self._convention = convention
''', '''        self._convention = {}
        self._convention.update(self._load_convention(c_current, v_current))
''')],
  "demo": FAILING + '''
def look(obj):
    assert sf.equals(obj, sf.Sofa("GeneralFIR"), False, "DATE")


each(lambda: sf.Sofa("GeneralFIR"), lambda o: o.verify(), look=look)
''',
  "needs": "a failure while loading the convention, then an operation that "
  "does not load it again",
  "breaks": "mandatory data are not protected and objects can not be compared"
  },

 {"id": "C33-shared-sizes", "property": "C33",
  "edits": [(SOFA, "    _protected = False\n",
             "    _protected = False\n    _longest = 0\n"),
            (SOFA, "        S = 0\n", "        Sofa._longest = 0\n"),
            (SOFA, "                    S = max(S, np.max(",
             "                    Sofa._longest = max(Sofa._longest, np.max("),
            (SOFA, '        self._api["S"] = S\n',
             '        self._api["S"] = Sofa._longest\n')],
  "demo": '''
import sys
import threading
sf = mini.load()
a, b = sf.Sofa("GeneralFIR"), sf.Sofa("SimpleHeadphoneIR")
a.add_variable("Words", ["four"], "string", "TS")
b.add_variable("Words", ["exactly sixteen."], "string", "TS")


def trace(frame, event, arg):
    global line
    if "sofar" not in frame.f_code.co_filename:
        return None
    key = (frame.f_code.co_name, frame.f_lineno)
    if event == "line" and line is None and key not in seen:
        # another thread verifies another object at this line
        seen.add(key)
        line = key
        t = threading.Thread(target=b.verify)
        t.start()
        t.join()
    return trace


seen = set()
while True:
    line = None
    sys.settrace(trace)
    try:
        size = a.get_dimension("S")
    finally:
        sys.settrace(None)
    assert size == 4, (size, line)
    if line is None:
        break
assert len(seen) > 1
''',
  "needs": "two threads that verify objects with different sizes",
  "breaks": "valid objects are refused, depending on the schedule"},

 {"id": "C33-folder", "property": "C33",
  "edits": [(IO, '''    with Dataset(filename, "w", format="NETCDF4") as file:

        # write dimensions
''', '''    # (netCDF does not support all characters in names of folders)
    cwd = os.getcwd()
    os.chdir(filename.parent)
    try:
        dataset = Dataset(filename.name, "w", format="NETCDF4")
        _write_data(dataset, sofa, all_keys, use_zlib, compression)
    finally:
        os.chdir(cwd)


def _write_data(dataset, sofa, all_keys, use_zlib, compression):
    """Write dimensions, attributes and data to an open file."""
    with dataset as file:

        # write dimensions
''')],
  "demo": '''
import os
import sys
import threading
sf = mini.load()
a, b = sf.Sofa("GeneralFIR"), sf.Sofa("SimpleHeadphoneIR")
os.mkdir(mini.path("one"))
os.mkdir(mini.path("two"))
os.chdir(mini.path("two"))
done = []


def other():
    mini.quiet(sf.write_sofa, "b.sofa", b)


def trace(frame, event, arg):
    name = frame.f_code.co_filename
    if "sofar" not in name or not name.endswith("io.py"):
        return None
    if event == "line" and len(done) < 300:
        if os.path.exists("b.sofa"):
            os.remove("b.sofa")
        done.append(frame.f_lineno)
        sys.settrace(None)
        t = threading.Thread(target=other)
        t.start()
        t.join()
        sys.settrace(trace)
    return trace


two = mini.path("two")
sys.settrace(trace)
try:
    sf.write_sofa(mini.path(os.path.join("one", "a.sofa")), a)
finally:
    sys.settrace(None)
assert done
assert not os.path.exists(mini.path(os.path.join("one", "b.sofa")))
assert os.path.exists(os.path.join(two, "b.sofa"))
''',
  "needs": "two threads, one of them uses a relative file name while the "
  "other one writes",
  "breaks": "the file is written to the folder of the other thread"},
]
