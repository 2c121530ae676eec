From 6d904ec049c0f997a36e509b563aacb863e06198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 01/53] fix: write string variables as characters

stringtochar with an encoding only accepts one dimensional unicode arrays and
failed for every string variable after the target file had been truncated.
---
 sofar/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 558622a..0eb53ea 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -2,7 +2,7 @@
 import contextlib
 import os
 import numpy as np
-from netCDF4 import Dataset, chartostring, stringtochar
+from netCDF4 import Dataset, chartostring
 import warnings
 import pathlib
 from packaging.version import parse
@@ -330,7 +330,9 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             if dtype == "f8":
                 tmp_var[:] = value
             else:
-                tmp_var[:] = stringtochar(value, encoding='utf-8')
+                # split strings into characters along the last dimension S
+                shape = [sofa._api[dim] for dim in shape[:-1]]
+                tmp_var[:] = value.view("S1").reshape(shape + [-1])
 
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
-- 
2.43.0


From 627a1fa0f7e88a232236c3212af5990c4b7aa6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 02/53] fix: keep non-ASCII characters of string variables

String variables are encoded with UTF-8 when writing and reading. Non-ASCII
characters raised a UnicodeEncodeError after the target file was truncated.
---
 sofar/io.py   |  7 +++++--
 sofar/sofa.py | 13 +++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 0eb53ea..dadfd10 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -378,7 +378,10 @@ def _format_value_for_netcdf(value, key, dtype, dimensions, S):
         value = _atleast_nd(value, len(dimensions))
         netcdf_dtype = "f8"
     elif dtype == "string":
-        value = np.array(value, dtype=f"S{str(S)}")
+        value = np.asarray(value)
+        if value.dtype.kind == "U":
+            value = np.char.encode(value, "utf-8")
+        value = value.astype(f"S{str(S)}")
         value = _atleast_nd(value, len(dimensions))
         netcdf_dtype = 'S1'
     else:
@@ -414,7 +417,7 @@ def _format_value_from_netcdf(value, key):
         # string arrays are stored in masked arrays with empty strings '' being
         # masked. Convert to regular arrays with unmasked empty strings
         if str(value.dtype)[1] == "S":
-            value = chartostring(value, encoding="ascii")
+            value = chartostring(value, encoding="utf-8")
         value = np.atleast_1d(value).astype("U")
     else:
         raise TypeError(
diff --git a/sofar/sofa.py b/sofar/sofa.py
index d629feb..dcc3ca6 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1769,17 +1769,22 @@ class Sofa():
         inside the string variable and the shape of the string variable as
         required by the SOFA definition. Note that the shape is the shape of
         the array that holds the strings. NETCDF stores all string variables in
-        arrays.
+        arrays. The length is the number of bytes after encoding with UTF-8.
         """
 
+        def length(string):
+            """Get length of a string in bytes."""
+            return len(string.encode("utf-8") if isinstance(string, str)
+                       else string)
+
         if isinstance(value, str):
-            S = len(value)
+            S = length(value)
             shape = (1, 1)
         elif isinstance(value, list):
-            S = len(max(value, key=len))
+            S = max(length(v) for v in value)
             shape = np.array(value).shape
         elif isinstance(value, np.ndarray):
-            S = max(np.vectorize(len)(value))
+            S = max(np.vectorize(length)(value))
             shape = value.shape
         else:
             raise TypeError((f"{key} must be a string, numpy string array, "
-- 
2.43.0


From c15384e84d748236775fdeb6e5ffe0cadf75cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 03/53] fix: get string length of multidimensional string
 variables

max() raised a ValueError if more than one dimension was larger than one.
---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index dcc3ca6..e320229 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1784,7 +1784,7 @@ class Sofa():
             S = max(length(v) for v in value)
             shape = np.array(value).shape
         elif isinstance(value, np.ndarray):
-            S = max(np.vectorize(length)(value))
+            S = np.max(np.vectorize(length)(value))
             shape = value.shape
         else:
             raise TypeError((f"{key} must be a string, numpy string array, "
-- 
2.43.0


From 5bc8a1cd17aee0c5549634903653ecde8db865aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 04/53] fix: adding invalid data leaves the object unchanged

If the value could not be converted to an array (e.g. nested lists of different
length), the object remained unprotected and the name of the entry remained in
the custom data, causing a KeyError in verify and write_sofa.
---
 sofar/sofa.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index e320229..acdcc4c 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -702,15 +702,23 @@ class Sofa():
         dtype : string
             double, string, or attribute
         """
-        # create custom API if it not exists
-        self.protected = False
-
         # lower case letters to indicate custom dimensions
         if dimensions is not None:
             dimensions = [d.upper() if d.upper() in "ERMNCIS" else d.lower()
                           for d in dimensions]
             dimensions = "".join(dimensions)
 
+        # add attribute to object (before adding it to the custom API to leave
+        # the object unchanged if the value is invalid)
+        protected = bool(self.protected)
+        self.protected = False
+        try:
+            setattr(self, key, value)
+        except Exception:
+            self.protected = protected
+            raise
+
+        # create custom API if it not exists
         # add user entry to custom API, if not contained in the convention
         if not hasattr(self, "_convention") or key not in self._convention:
             if not hasattr(self, "_custom"):
@@ -724,8 +732,6 @@ class Sofa():
                 "comment": ""}
             self._convention[key] = self._custom[key]
 
-        # add attribute to object
-        setattr(self, key, value)
         self.protected = True
 
     def upgrade_convention(self, target=None, verify='auto'):
-- 
2.43.0


From 27046f1b4f275f1014f58528a6b2d42bc1ab24c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 05/53] fix: custom data can be added again after deleting it

The type and dimensions of the deleted entry remained in the convention and
were used if the entry was added again with a different type or dimensions, and
adding the entry again caused a KeyError in verify.
---
 sofar/sofa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index acdcc4c..cc18a69 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -176,6 +176,7 @@ class Sofa():
             if hasattr(self, "_custom"):
                 if name in self._custom:
                     self._custom.pop(name)
+                    self._convention.pop(name, None)
         else:
             raise TypeError(
                 f"{name} is a mandatory attribute that can not be deleted")
-- 
2.43.0


From bbda03db098037590699bba3b35e2129d5a48f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 06/53] fix: detect attributes of deleted optional variables

Attributes whose variable was deleted passed the verification and were silently
dropped when writing the data, because they are stored with the variable.
---
 sofar/sofa.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index cc18a69..3d434ca 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -668,7 +668,7 @@ class Sofa():
                 raise ValueError((f"The name of {name} must have the "
                                   "form VariableName_AttributeName"))
             if not name.startswith("GLOBAL_") and \
-                    name[:name.rindex("_")] not in self._convention:
+                    not hasattr(self, name[:name.rindex("_")]):
                 raise ValueError((f"Adding Attribute {name} requires "
                                   f"variable {name[:name.rindex('_')]}"))
         if dimensions is None and dtype != "attribute":
@@ -1093,8 +1093,14 @@ class Sofa():
                     key.count("_") == 0:
                 continue
 
-            if (key[:key.rindex("_")] not in self._convention and
-                    not key.startswith("GLOBAL_")):
+            if key.startswith("GLOBAL_"):
+                continue
+
+            # mandatory attributes may belong to optional variables
+            variable = key[:key.rindex("_")]
+            if variable not in self._convention or (
+                    not hasattr(self, variable) and
+                    not self._mandatory(self._convention[key]["flags"])):
                 current_error += "- " + key + "\n"
 
         if current_error:
-- 
2.43.0


From 147815f33237c8f79cb554c9fb176918226e25f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 07/53] fix: comparison of data with different shapes and of
 non-ASCII strings

A scalar was considered equal to arrays of any shape containing only this
value, comparing string variables raised an error for shapes that can not be
broadcast and for non-ASCII characters, and the name of the entry was missing
in two messages.
---
 sofar/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sofar/utils.py b/sofar/utils.py
index db70d72..9115353 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -212,19 +212,20 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
         elif type_a == "double" and type_b == "double":
 
             try:
+                assert np.squeeze(a).shape == np.squeeze(b).shape
                 npt.assert_allclose(np.squeeze(a), np.squeeze(b))
             except AssertionError:
                 is_identical = _equals_raise_warning(
-                    "not identical: different values for {key}", verbose)
+                    f"not identical: different values for {key}", verbose)
 
         # compare string variables
         elif type_a == "string" and type_b == "string":
-            try:
-                assert np.all(
-                    np.squeeze(a).astype("S") == np.squeeze(b).astype("S"))
-            except AssertionError:
+            # byte strings are compared as unicode strings
+            a, b = [np.char.decode(v, "utf-8") if v.dtype.kind == "S" else v
+                    for v in (np.squeeze(a), np.squeeze(b))]
+            if not np.array_equal(a, b):
                 is_identical = _equals_raise_warning(
-                    "not identical: different values for {key}", verbose)
+                    f"not identical: different values for {key}", verbose)
         else:
             is_identical = _equals_raise_warning(
                 (f"not identical: {key} has different data types "
-- 
2.43.0


From 745d3b83f82498cace438d90fe802e9d0546b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 08/53] fix: SofaStream returns exactly the requested entry

- GLOBAL_X returned the variable X if the file also contains a variable X
- attributes of data variables (e.g. Data_SamplingRate_Units) whose variable
  name contains 'Data_' elsewhere, and GLOBAL_Name_Attribute, returned the
  wrong entry
- names with more than one underscore raised ValueError instead of
  AttributeError, and a stream that was not opened a RecursionError
---
 sofar/sofastream.py | 46 +++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 72fdd45..4be8dfd 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -88,35 +88,41 @@ class SofaStream():
         Executed when accessing data within a with statement
         (see documentation above).
         """
-        # get netCDF4-attributes and -variable-keys from SOFA-file
-        dset_variables = np.array(list(self._file.variables.keys()))
-        dset_attributes = np.asarray(self._file.ncattrs())
+        # private attributes are never contained in the SOFA-file (avoids
+        # infinite recursion if the file was not opened)
+        if name.startswith("_"):
+            raise AttributeError(f"{name} is not contained in SOFA-file")
 
-        # remove delimiter from passed sofar-attribute
-        name_netcdf = name.replace(
-            'GLOBAL_', '').replace('Data_', 'Data.')
+        # get netCDF4-attributes from SOFA-file
+        dset_attributes = self._file.ncattrs()
 
-        # Handle variable-attributes (e.g. '_Units' and '_Type')
-        var_attr = None
-        if "_" in name_netcdf:
-            name_netcdf, var_attr = name_netcdf.split('_')
+        # remove delimiter from passed sofar-attribute
+        name_netcdf = name[7:] if name.startswith('GLOBAL_') else name
 
         # get value if passed attribute points to a netCDF4-variable
-        if name_netcdf in dset_variables:
-            # get variable from SOFA-file
-            self._data = self._file.variables[name_netcdf]
-            if var_attr is not None:
-                self._data = getattr(self._data, var_attr)
+        if not name.startswith('GLOBAL_'):
+            for key, variable in self._file.variables.items():
+                # name of the variable as used by sofar
+                key = key.replace('.', '_')
+
+                # get variable from SOFA-file
+                if name == key:
+                    self._data = variable
+                    return self._data
+
+                # Handle variable-attributes (e.g. '_Units' and '_Type')
+                if name.startswith(f"{key}_") and \
+                        name[len(key) + 1:] in variable.ncattrs():
+                    self._data = variable.getncattr(name[len(key) + 1:])
+                    return self._data
 
         # get value if passed attribute points to a netCDF4-attribute
-        elif name_netcdf in dset_attributes:
+        if name_netcdf in dset_attributes:
             # get attribute value from SOFA-file
             self._data = self._file.getncattr(name_netcdf)
+            return self._data
 
-        else:
-            raise AttributeError(f"{name} is not contained in SOFA-file")
-
-        return self._data
+        raise AttributeError(f"{name} is not contained in SOFA-file")
 
     @property
     def list_dimensions(self):
-- 
2.43.0


From d2cf051540b0441101ebdfbedf93e089bfa82afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 09/53] fix: detect size of one dimensional custom data given
 as list

Lists are stored as arrays of shape (1, N) but the size of the dimension was
taken from the first axis.
---
 sofar/sofa.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 3d434ca..b04210d 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1212,9 +1212,11 @@ class Sofa():
             # - defined by lower case letters in `dimensions`
             for idx, dim in enumerate(dimensions.split(", ")[0]):
                 if dim not in "ICS" and dim.islower():
-                    # numeric data
-                    self._api[dim.upper()] = \
-                        _nd_newaxis(value, 4).shape[idx]
+                    # numeric data (one dimensional data can be of shape
+                    # (N, ) and (1, N))
+                    self._api[dim.upper()] = np.size(value) \
+                        if len(dimensions.split(", ")[0]) == 1 \
+                        else _nd_newaxis(value, 4).shape[idx]
                 if dim == "S":
                     # string data
                     S = max(S, np.max(self._get_size_and_shape_of_string_var(
-- 
2.43.0


From c500965289863122ff17095415f7c0268aed23b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 10/53] fix: detect data with too many dimensions

Additional dimensions with a size larger than one were ignored by verify. Such
data caused an error when writing after the target file was truncated.
---
 sofar/sofa.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index b04210d..43582ca 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1251,7 +1251,8 @@ class Sofa():
                 shape_act = _atleast_nd(value, 4).shape
             else:
                 # scalar of single dimensional array like data
-                shape_act = (np.array(value).size, )
+                shape_act = np.shape(np.squeeze(value))
+                shape_act = (1, ) if not shape_act else shape_act
 
             shape_matched = False
             for dim in dimensions.split(", "):
@@ -1264,7 +1265,10 @@ class Sofa():
 
                 # get shape for comparison to correct length by cropping and
                 # appending singleton dimensions if required
-                shape_compare = shape_act[:len(shape_ref)]
+                shape_compare = shape_act
+                while len(shape_compare) > len(shape_ref) and \
+                        shape_compare[-1] == 1:
+                    shape_compare = shape_compare[:-1]
                 for _ in range(len(shape_ref) - len(shape_compare)):
                     shape_compare += (1, )
 
-- 
2.43.0


From 8db4baad004fe9fe9277586e636b6301b92860ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 11/53] fix: inspect data that violate the SOFA standard and
 show sizes of dimensions

- inspect raised an error if variables had the wrong type or shape, and for
  string variables given as str
- the sizes of one dimensional data given as list or array were wrong
---
 sofar/sofa.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 43582ca..991b7de 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -459,23 +459,23 @@ class Sofa():
             value = getattr(self, key)
 
             # information for attributes and scalars
-            if self._convention[key]["type"] == "attribute" or value.size == 1:
+            if self._convention[key]["type"] == "attribute" \
+                    or np.size(value) == 1:
                 info_str += str(value) + "\n"
             # information for variables
             else:
                 # get shape and dimension
-                shape = value.shape
-                dimension = self._dimensions[key]
-
-                # pad shape if required (trailing single dimensions are
-                # discarded following the numpy default)
-                while len(shape) < len(dimension):
-                    shape += (1, )
+                # (not available if data are of wrong type or shape)
+                dimension = self._dimensions.get(key, None)
 
                 # make verbose shape, e.g., '(M=100, R=2, N=128, '
                 shape_verbose = "("
-                for s, d in zip(shape, dimension):
-                    shape_verbose += f"{d}={s}, "
+                if dimension is None:
+                    for s in np.shape(value):
+                        shape_verbose += f"{s}, "
+                else:
+                    for d in dimension:
+                        shape_verbose += f"{d}={self._api[d]}, "
 
                 # add shape information
                 info_str += shape_verbose[:-2] + ")\n"
@@ -980,6 +980,13 @@ class Sofa():
         # is more convenient for the user and with respect to a potential
         # future web based tool for verifying SOFA files.
 
+        # initialize required API fields (updated in 4. and 5.)
+        protected = bool(self.protected)
+        self.protected = False
+        self._dimensions = {}
+        self._api = {}
+        self.protected = protected
+
         # initialize warning and error messages
         error_msg = "\nERRORS\n------\n"
         warning_msg = "\nWARNINGS\n--------\n"
@@ -1186,12 +1193,6 @@ class Sofa():
         # ---------------------------------------------------------------------
         # 4. Get dimensions (E, R, M, N, S, c, I, and custom)
 
-        # initialize required API fields
-        self.protected = False
-        self._dimensions = {}
-        self._api = {}
-        self.protected = True
-
         # get keys for checking the dimensions (all SOFA variables)
         keys = [key for key in self.__dict__.keys()
                 if key in self._convention
-- 
2.43.0


From 02e18cef50e15e16010e56443a8f9e41efaf08da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 12/53] fix: verify returns warnings and ignores issues if
 requested

- warnings were not returned if no error was detected
- ignoring issues raised an error if data were of wrong type
---
 sofar/sofa.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 991b7de..1388ed9 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1080,11 +1080,11 @@ class Sofa():
         # if an error ocurred up to here, it has to be handled. Otherwise
         # detecting the dimensions might fail. Warnings are not reported until
         # the end
-        if error_msg != "\nERRORS\n------\n" and issue_handling != "ignore":
+        if error_msg != "\nERRORS\n------\n":
             _, issues = self._verify_handle_issues(
                     "\nWARNINGS\n--------\n", error_msg, issue_handling)
 
-            if issue_handling == "print":
+            if issue_handling in ["print", "ignore"]:
                 return
             else:  # (issue_handling == "return"):
                 return issues
@@ -1435,14 +1435,11 @@ class Sofa():
         # ---------------------------------------------------------------------
         # 9. handle warnings and errors
         if issue_handling != "ignore":
-            error_occurred, issues = self._verify_handle_issues(
+            _, issues = self._verify_handle_issues(
                     warning_msg, error_msg, issue_handling)
 
-            if error_occurred:
-                if issue_handling == "print":
-                    return
-                elif issue_handling == "return":
-                    return issues
+            if issue_handling == "return":
+                return issues
 
     @staticmethod
     def _verify_value(test, ref, unit_aliases, key):
-- 
2.43.0


From 78e7f157c091dd9086f18981bb0ca314ec287e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 13/53] fix: accept units that are separated by spaces

As documented, units can be separated by comma, comma and space, or space.
---
 sofar/sofa.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 1388ed9..85f7ace 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1522,6 +1522,11 @@ class Sofa():
         units_ref = re.split(', ?', ref[0])
         units_test = re.split(', ?', test)
 
+        # (blanks separate units only if there are as many units as required,
+        # because single units can contain blanks, e.g., 'cubic metre')
+        if len(units_ref) != len(units_test):
+            units_test = re.split(', ?| ', test)
+
         # check if number of units agree
         if len(units_ref) != len(units_test):
             return False
-- 
2.43.0


From 8dc88fccbb60f392326a3413984e7985be1389ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 14/53] fix: verify variables whose name ends with Units

The check for upper case letters raised an AttributeError for numeric data.
---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 85f7ace..1b6c667 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1398,7 +1398,7 @@ class Sofa():
             keys = [k for k in self.__dict__.keys() if k.endswith("Units")]
             for key in keys:
                 unit = getattr(self, key)
-                if unit.lower() != unit:
+                if isinstance(unit, str) and unit.lower() != unit:
                     current_error += (f"- {key} is {unit} but must contain "
                                       "only lower case letters when writing "
                                       "SOFA files to disk.\n")
-- 
2.43.0


From defa1347da8a7e7cc6b76f48c219d14b06bb74c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 15/53] fix: apply rules depending on values regardless of the
 case of the value

Except for a few values, dependencies were only checked for lower case values,
although upper case values are accepted (e.g. GLOBAL_RoomType='Reverberant').
---
 sofar/sofa.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 1b6c667..e2d153a 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1317,9 +1317,11 @@ class Sofa():
                                   f"but must be {', '.join(ref)}\n")
 
             # get lower case value for of test for verifying specific
-            # dependencies
-            if isinstance(test, str) and test.lower() in \
-                    ["cartesian", "spherical", "spherical harmonics"]:
+            # dependencies (values are not case sensitive, see _verify_value)
+            if isinstance(test, str) \
+                    and test not in rules[key].get("specific", {}) \
+                    and key_sofar not in ["GLOBAL_DataType",
+                                          "GLOBAL_SOFAConventions"]:
                 test = test.lower()
 
             # check general dependencies
-- 
2.43.0


From add937d438d2d808698b30926b7fa5f3c2ee4ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 16/53] fix: attributes with names that are used by the netCDF4
 package

Attributes such as GLOBAL_path, GLOBAL_name or Variable_scale were lost or
raised an error because they were accessed as python attributes.
---
 sofar/io.py         | 10 +++++-----
 sofar/sofastream.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index dadfd10..e4464f3 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -145,7 +145,7 @@ def _read_netcdf(filename, verify, verbose, mode):
         # load global attributes
         for attr in file.ncattrs():
 
-            value = getattr(file, attr)
+            value = file.getncattr(attr)
             all_attr.append(f"GLOBAL_{attr}")
 
             if not hasattr(sofa, f"GLOBAL_{attr}"):
@@ -176,7 +176,7 @@ def _read_netcdf(filename, verify, verbose, mode):
             # load variable attributes
             for attr in [a for a in file[var].ncattrs() if a not in skip]:
 
-                value = getattr(file[var], attr)
+                value = file[var].getncattr(attr)
                 all_attr.append(var.replace(".", "_") + "_" + attr)
 
                 if not hasattr(sofa, var.replace(".", "_") + "_" + attr):
@@ -301,7 +301,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
         # write global attributes
         keys = [key for key in all_keys if key.startswith("GLOBAL_")]
         for key in keys:
-            setattr(file, key[7:], str(getattr(sofa, key)))
+            file.setncattr(key[7:], str(getattr(sofa, key)))
 
         # write data
         for key in all_keys:
@@ -337,8 +337,8 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
             for sub_key in sub_keys:
-                setattr(tmp_var, sub_key[len(key)+1:],
-                        str(getattr(sofa, sub_key)))
+                tmp_var.setncattr(sub_key[len(key)+1:],
+                                  str(getattr(sofa, sub_key)))
 
 
 def _format_value_for_netcdf(value, key, dtype, dimensions, S):
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 4be8dfd..fa45bb6 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -296,7 +296,7 @@ class SofaStream():
             # Add variable-attributes to info string (e.g. 'Type' or 'Units)
             for att_ in list(self._file[key].ncattrs()):
                 info_str += (key.replace('.', '_') + f'_{att_} : '
-                             + getattr(data, att_) + '\n')
+                             + str(data.getncattr(att_)) + '\n')
 
         # write to text file
         if file is not None:
-- 
2.43.0


From 22fe346d48973db23e1023dae307d872bd2f0f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 17/53] fix: append '.sofa' to filenames instead of replacing
 the suffix

Saving data as 'hrir_0.5' and 'hrir_0.7' wrote to the same file 'hrir_0.sofa'.
---
 sofar/io.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index e4464f3..0fcceee 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -112,7 +112,7 @@ def read_sofa_as_netcdf(filename):
 def _read_netcdf(filename, verify, verbose, mode):
 
     # check the filename
-    filename = pathlib.Path(filename).with_suffix('.sofa')
+    filename = _append_suffix(filename)
     if not os.path.isfile(filename):
         raise ValueError(f"{filename} does not exist")
 
@@ -263,7 +263,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
     """
 
     # check the filename
-    filename = pathlib.Path(filename).with_suffix('.sofa')
+    filename = _append_suffix(filename)
 
     if verify:
         # check if the latest version is used for writing and warn otherwise
@@ -341,6 +341,15 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                                   str(getattr(sofa, sub_key)))
 
 
+def _append_suffix(filename):
+    """Append '.sofa' to the filename, if it is not explicitly given."""
+    filename = pathlib.Path(filename)
+    if not filename.name.endswith('.sofa'):
+        filename = filename.with_name(f'{filename.name}.sofa')
+
+    return filename
+
+
 def _format_value_for_netcdf(value, key, dtype, dimensions, S):
     """
     Format value from SOFA object for saving in a NETCDF4 file.
-- 
2.43.0


From da85f37cee7c38d9c12dc16444d2426925d5d4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 18/53] fix: do not add optional data if only mandatory data
 are requested

The optional attributes ApplicationName and ApplicationVersion were contained in
SOFA objects created with mandatory=True.
---
 sofar/sofa.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index e2d153a..0f45f29 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1778,11 +1778,14 @@ class Sofa():
         self.GLOBAL_DateModified = now
         self.GLOBAL_APIName = "sofar SOFA API for Python (pyfar.org)"
         self.GLOBAL_APIVersion = sf.version()
-        self.GLOBAL_ApplicationName = "Python"
-        self.GLOBAL_ApplicationVersion = (
-            f"{platform.python_version()} "
-            f"[{platform.python_implementation()} - "
-            f"{platform.python_compiler()}]")
+        # (optional in the conventions)
+        if hasattr(self, "GLOBAL_ApplicationName"):
+            self.GLOBAL_ApplicationName = "Python"
+        if hasattr(self, "GLOBAL_ApplicationVersion"):
+            self.GLOBAL_ApplicationVersion = (
+                f"{platform.python_version()} "
+                f"[{platform.python_implementation()} - "
+                f"{platform.python_compiler()}]")
         self.protected = True
 
     @staticmethod
-- 
2.43.0


From ee9f8e27cb521081a715610406486e0e8b2b412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 19/53] fix: update read only data if the convention changes

Read only data of the new convention could be changed after upgrading data, and
after reading data with read_sofa_as_netcdf.
---
 sofar/sofa.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 0f45f29..856f464 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -98,9 +98,7 @@ class Sofa():
             self._convention = self._load_convention(convention, version)
 
             # update read only attributes
-            self._read_only_attr = [
-                key for key in self._convention.keys()
-                if self._read_only(self._convention[key]["flags"])]
+            self._update_read_only()
 
             # add attributes with default values
             self._convention_to_sofa(mandatory)
@@ -1672,6 +1670,7 @@ class Sofa():
         convention = self._load_convention(
             c_current, v_current)
         self._convention = convention
+        self._update_read_only()
 
         if hasattr(self, "_custom"):
             # check of custom fields can be removed
@@ -1683,6 +1682,12 @@ class Sofa():
             for key in self._custom:
                 self._convention[key] = self._custom[key]
 
+    def _update_read_only(self):
+        """Update list of read only attributes from self._convention."""
+        self._read_only_attr = [
+            key for key in self._convention.keys()
+            if self._read_only(self._convention[key]["flags"])]
+
     def _load_convention(self, convention, version):
         """
         Load SOFA convention from json file.
-- 
2.43.0


From 36f71ebe71bd905f0488a1c5980dec70db8bcdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 20/53] fix: upgrade data with missing optional entries or
 without upgrade rules

- upgrading stopped with an AttributeError leaving a partly upgraded,
  unprotected object if data to be moved or removed were not contained
- UnboundLocalError for versions without upgrade rules
---
 sofar/sofa.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 856f464..14eea50 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -811,6 +811,10 @@ class Sofa():
                         print(upgrades)
                         return targets
                     break
+            else:
+                print((f"Convention {convention_current} v{version_current} is"
+                       " outdated but is missing upgrade rules"))
+                return
         else:
             print((f"Convention {convention_current} v{version_current} "
                    "is up to date"))
@@ -845,6 +849,9 @@ class Sofa():
             source_sofar = source.replace(".", '_').replace(":", "_")
             target_sofar = move["target"].replace(".", '_').replace(":", "_")
             move_info = f"- Moving {source_sofar} to {target_sofar}."
+            # optional data might not be contained
+            if not hasattr(self, source_sofar):
+                continue
             # get data
             data = getattr(self, source_sofar)
             # delete from Sofa object
@@ -877,6 +884,9 @@ class Sofa():
         # remove data
         for target in upgrade["remove"]:
             target_sofar = target.replace(".", '_').replace(":", "_")
+            # optional data might not be contained
+            if not hasattr(self, target_sofar):
+                continue
             delattr(self, target_sofar)
             print(f"- Deleting {target_sofar}.")
 
-- 
2.43.0


From 692b317bc7e58e740628e559a7a82d22d35618ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 21/53] fix: do not install error pages as conventions

Error pages sent by the server (e.g. 404 or 503) were stored as convention
files or caused all conventions to be missed.
---
 sofar/update_conventions.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index df64108..690a971 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -58,12 +58,12 @@ def update_conventions(conventions_path=None, assume_yes=False):
     print(f"Reading SOFA conventions from {urls[0]} ...")
 
     # get file names of conventions from sofaconventions.org
-    page = requests.get(urls[0]).text
+    page = _download(urls[0]).text
     soup = BeautifulSoup(page, 'html.parser')
     standardized = [os.path.split(node.get('href'))[1]
                     for node in soup.find_all('a')
                     if node.get('href').endswith(ext)]
-    page = requests.get(urls[1]).text
+    page = _download(urls[1]).text
     soup = BeautifulSoup(page, 'html.parser')
     deprecated = [os.path.split(node.get('href'))[1]
                   for node in soup.find_all('a')
@@ -106,7 +106,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
             )
 
             # download SOFA convention definitions to package directory
-            data = requests.get(url)
+            data = _download(url)
             # remove windows style line breaks and trailing tabs
             data = data.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
 
@@ -189,6 +189,14 @@ def update_conventions(conventions_path=None, assume_yes=False):
             print("... conventions already up to date.")
 
 
+def _download(url):
+    """Download from url and raise an error if the download failed."""
+    response = requests.get(url)
+    response.raise_for_status()
+
+    return response
+
+
 def _compile_conventions(conventions_path=None):
     """
     Compile SOFA conventions (json files) from source conventions (csv files
-- 
2.43.0


From 9278b535716940f12989ca3e021c8171a13d4169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 22/53] fix: deprecate conventions that were not compiled

os.remove raised an error if the json file did not exist, leaving the
conventions partly updated.
---
 sofar/update_conventions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 690a971..23ae8e2 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -177,8 +177,10 @@ def update_conventions(conventions_path=None, assume_yes=False):
                             os.path.join(conventions_path, convention))
             for convention in deprecate:
                 os.remove(os.path.join(conventions_path, convention))
-                os.remove(
-                    os.path.join(conventions_path, f"{convention[:-3]}json"))
+                # (not contained if the conventions were not compiled)
+                with contextlib.suppress(FileNotFoundError):
+                    os.remove(os.path.join(
+                        conventions_path, f"{convention[:-3]}json"))
                 shutil.copy(
                     os.path.join(temp, 'deprecated', convention),
                     os.path.join(conventions_path, 'deprecated', convention))
-- 
2.43.0


From 9239af39ab6b08780c0f1965285193a6748ec352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 23/53] fix: remove all trailing tabs when updating conventions

Only one trailing tab was removed per line. Conventions with more than one
trailing tab were thus updated every time.
---
 sofar/update_conventions.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 23ae8e2..695ddcf 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -108,7 +108,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
             # download SOFA convention definitions to package directory
             data = _download(url)
             # remove windows style line breaks and trailing tabs
-            data = data.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
+            data = _normalize(data.content)
 
             # check if convention needs to be added or updated
             if is_standardized and not os.path.isfile(standardized_csv):
@@ -121,9 +121,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
             if is_standardized and os.path.isfile(standardized_csv):
                 # check for update of a standardized convention
                 with open(standardized_csv, "rb") as file:
-                    data_current = b"".join(file.readlines())
-                    data_current = data_current.replace(
-                        b"\r\n", b"\n").replace(b"\t\n", b"\n")
+                    data_current = _normalize(file.read())
                 if data_current != data:
                     updated = True
                     with open(os.path.join(temp, convention), "wb") as file:
@@ -141,9 +139,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
             elif not is_standardized and os.path.isfile(deprecated_csv):
                 # check for update of a deprecated convention
                 with open(deprecated_csv, "rb") as file:
-                    data_current = b"".join(file.readlines())
-                    data_current = data_current.replace(
-                        b"\r\n", b"\n").replace(b"\t\n", b"\n")
+                    data_current = _normalize(file.read())
                 if data_current != data:
                     updated = True
                     with open(os.path.join(temp, 'deprecated', convention),
@@ -199,6 +195,11 @@ def _download(url):
     return response
 
 
+def _normalize(data):
+    """Remove windows style line breaks and trailing tabs."""
+    return re.sub(b"\t+\n", b"\n", data.replace(b"\r\n", b"\n"))
+
+
 def _compile_conventions(conventions_path=None):
     """
     Compile SOFA conventions (json files) from source conventions (csv files
-- 
2.43.0


From 179d67baa6052eeacb1b4eb9abf124d0af39ef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 24/53] fix: remove deprecated conventions that are
 standardized again

The convention was contained twice after the update.
---
 sofar/update_conventions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 695ddcf..0e54e08 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -171,6 +171,12 @@ def update_conventions(conventions_path=None, assume_yes=False):
             for convention in update:
                 shutil.copy(os.path.join(temp, convention),
                             os.path.join(conventions_path, convention))
+                # remove deprecated convention if it was standardized (again)
+                for ext in ["csv", "json"]:
+                    with contextlib.suppress(FileNotFoundError):
+                        os.remove(os.path.join(
+                            conventions_path, "deprecated",
+                            f"{convention[:-3]}{ext}"))
             for convention in deprecate:
                 os.remove(os.path.join(conventions_path, convention))
                 # (not contained if the conventions were not compiled)
-- 
2.43.0


From db8b3cdced069aeea4a6728361992621f2a9fc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 25/53] fix: methods can not be overwritten by assigning data

E.g. sofa.verify = 1 added the entry 'verify' to protected objects.
---
 sofar/sofa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 14eea50..ba920c6 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -136,7 +136,9 @@ class Sofa():
         read-only data.
         """
         # don't allow new attributes to be added outside the class
-        if self.protected and not hasattr(self, name):
+        # (and don't allow to overwrite methods)
+        if self.protected and (not hasattr(self, name)
+                               or callable(getattr(type(self), name, None))):
             raise TypeError(f"{name} is an invalid attribute")
 
         # don't allow setting read only attributes
-- 
2.43.0


From 7879e4063c39776f025a0486de2954512c762619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 26/53] fix: verify data with custom entries without additional
 warnings

A new object was created to get the names of the entries, which raised warnings
for preliminary and deprecated conventions regardless of issue_handling.
---
 sofar/sofa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index ba920c6..f4618e9 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1183,9 +1183,9 @@ class Sofa():
         if hasattr(self, "_custom"):
 
             # get normative variables and attributes
-            normative = sf.Sofa(
+            normative = self._load_convention(
                 self.GLOBAL_SOFAConventions,
-                version=self.GLOBAL_SOFAConventionsVersion)._convention.keys()
+                self.GLOBAL_SOFAConventionsVersion).keys()
             normative = [n.replace("GLOBAL_", "") for n in normative]
 
             # compare against custom
-- 
2.43.0


From 0fd210c35483f46cd98b819701096a0a55d879e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 27/53] fix: check that custom string variables have the
 dimension S

String variables without the dimension S, and numeric variables with it, passed
the verification but caused an error when writing the data.
---
 sofar/sofa.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index f4618e9..cf5bb77 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -676,6 +676,11 @@ class Sofa():
                               "dtype double and string"))
         if dimensions is not None:
             dimensions = dimensions.upper()
+            if dtype == "string" and not dimensions.endswith("S"):
+                raise ValueError(("The last dimension of string variables "
+                                  "must be S"))
+            if dtype == "double" and "S" in dimensions:
+                raise ValueError("Dimension S is only for string variables")
             for dimension in dimensions:
                 if dimension not in "ERMNCIS":
                     warnings.warn(
-- 
2.43.0


From 33287ec50307214cfd0c3b976953ab3f414f5921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 28/53] fix: read variables without dimensions

Scalar netCDF variables raised an IndexError.
---
 sofar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 0fcceee..60bab42 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -435,7 +435,7 @@ def _format_value_from_netcdf(value, key):
     # convert arrays to scalars if they do not store data that is usually used
     # as scalar metadata, e.g., the SamplingRate
     data_keys = ["Data_IR", "Data_Real", "Data_Imag", "Data_SOS" "Data_Delay"]
-    if value.size == 1 and key not in data_keys:
+    if value.size == 1 and value.ndim and key not in data_keys:
         value = value[0]
 
     return value
-- 
2.43.0


From ab5185742a16139ec5f6b0cec858077f8c8dc421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 29/53] fix: accept string variables of type S

---
 sofar/sofa.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index cf5bb77..2093777 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1074,9 +1074,8 @@ class Sofa():
                     current_error += (f"- {key} must be string or numpy array "
                                       f"but is {type(value)}\n")
 
-                if isinstance(value, np.ndarray) and not (
-                        str(value.dtype).startswith('<U') or
-                        str(value.dtype).startswith('<S')):
+                if isinstance(value, np.ndarray) and \
+                        value.dtype.kind not in ['U', 'S']:
                     current_error += (f"- {key} must be U or S "
                                       f"but is {type(value.dtype)}\n")
 
-- 
2.43.0


From 080ebb17dd306779bf65daf9dc0ddd9000c2a235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 30/53] fix: report added missing data also if types are wrong

---
 sofar/sofa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 2093777..6ee6ef5 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1092,11 +1092,11 @@ class Sofa():
             error_msg += current_error
 
         # if an error ocurred up to here, it has to be handled. Otherwise
-        # detecting the dimensions might fail. Warnings are not reported until
-        # the end
+        # detecting the dimensions might fail. (at this point, the warnings can
+        # only contain information about missing data that were added)
         if error_msg != "\nERRORS\n------\n":
             _, issues = self._verify_handle_issues(
-                    "\nWARNINGS\n--------\n", error_msg, issue_handling)
+                    warning_msg, error_msg, issue_handling)
 
             if issue_handling in ["print", "ignore"]:
                 return
-- 
2.43.0


From b2b1852a91e5650b96dc12de7a2d721b6e78b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 31/53] fix: write custom variables named Data

Other entries starting with Data_ were written as attributes of the variable.
---
 sofar/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 60bab42..a69043d 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -335,7 +335,9 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                 tmp_var[:] = value.view("S1").reshape(shape + [-1])
 
             # write variable attributes
-            sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
+            # (a custom variable might be named Data)
+            sub_keys = [k for k in all_keys if k.rpartition("_")[0] == key
+                        and sofa._convention[k]["type"] == "attribute"]
             for sub_key in sub_keys:
                 tmp_var.setncattr(sub_key[len(key)+1:],
                                   str(getattr(sofa, sub_key)))
-- 
2.43.0


From a02ff13ce5e1e34cb92d3357c6853cf93011cb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 32/53] fix: relative file names starting with blanks

The netCDF library discards blanks at the beginning of relative file names,
so that different names shared a file.
---
 sofar/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index a69043d..aa51f36 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -349,7 +349,8 @@ def _append_suffix(filename):
     if not filename.name.endswith('.sofa'):
         filename = filename.with_name(f'{filename.name}.sofa')
 
-    return filename
+    # (netCDF discards blanks at the beginning of relative file names)
+    return filename.absolute()
 
 
 def _format_value_for_netcdf(value, key, dtype, dimensions, S):
-- 
2.43.0


From 6ba459018d254a5c4bdbf953ba6df6db5aecb15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 33/53] fix: updates of conventions interrupted while
 installing were never completed

---
 sofar/update_conventions.py | 44 +++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 0e54e08..763dc33 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -168,24 +168,13 @@ def update_conventions(conventions_path=None, assume_yes=False):
                 return
 
         if updated:
+            # compile before installing (raises an error for invalid csv files)
+            _compile_conventions(temp)
             for convention in update:
-                shutil.copy(os.path.join(temp, convention),
-                            os.path.join(conventions_path, convention))
-                # remove deprecated convention if it was standardized (again)
-                for ext in ["csv", "json"]:
-                    with contextlib.suppress(FileNotFoundError):
-                        os.remove(os.path.join(
-                            conventions_path, "deprecated",
-                            f"{convention[:-3]}{ext}"))
+                _install(temp, conventions_path, convention)
             for convention in deprecate:
-                os.remove(os.path.join(conventions_path, convention))
-                # (not contained if the conventions were not compiled)
-                with contextlib.suppress(FileNotFoundError):
-                    os.remove(os.path.join(
-                        conventions_path, f"{convention[:-3]}json"))
-                shutil.copy(
-                    os.path.join(temp, 'deprecated', convention),
-                    os.path.join(conventions_path, 'deprecated', convention))
+                _install(temp, conventions_path,
+                         os.path.join('deprecated', convention))
             # compile json files from csv file
             _compile_conventions(conventions_path)
             print("... done.")
@@ -201,6 +190,24 @@ def _download(url):
     return response
 
 
+def _install(source, target, convention):
+    """
+    Replace installed csv and json files of a convention.
+
+    The csv files are removed first and copied last. If this is interrupted,
+    the convention will thus be detected and installed by the next update.
+    """
+    name = os.path.basename(convention)[:-3]
+    for extension in ["csv", "json"]:
+        for folder in ["", "deprecated"]:
+            with contextlib.suppress(FileNotFoundError):
+                os.remove(os.path.join(target, folder, name + extension))
+
+    for extension in ["json", "csv"]:
+        file = convention[:-3] + extension
+        shutil.copy(os.path.join(source, file), os.path.join(target, file))
+
+
 def _normalize(data):
     """Remove windows style line breaks and trailing tabs."""
     return re.sub(b"\t+\n", b"\n", data.replace(b"\r\n", b"\n"))
@@ -234,8 +241,11 @@ def _compile_conventions(conventions_path=None):
 
         # convert SOFA conventions from csv to json
         convention_dict = _convention_csv2dict(csv_file)
-        with open(f"{csv_file[:-3]}json", 'w') as file:
+        # (write to a new file first to never leave incomplete json files)
+        json_file = f"{csv_file[:-3]}json"
+        with open(f"{json_file}.part", 'w') as file:
             json.dump(convention_dict, file, indent=4)
+        os.replace(f"{json_file}.part", json_file)
 
 
 def _convention_csv2dict(file: str):
-- 
2.43.0


From 6d71c3a75b504b6e4961e1f9bc6233890c062cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 34/53] fix: failed upgrades of conventions left a damaged and
 unprotected object

---
 sofar/sofa.py | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 6ee6ef5..8832b0c 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -777,7 +777,6 @@ class Sofa():
         _, _, deprecations, upgrade = self._verification_rules()
         convention_current = self.GLOBAL_SOFAConventions
         version_current = self.GLOBAL_SOFAConventionsVersion
-        sofa_version_current = self.GLOBAL_Version
 
         # check if convention is deprecated -----------------------------------
         is_deprecated = False
@@ -831,7 +830,41 @@ class Sofa():
         upgrade = upgrade[self.GLOBAL_SOFAConventions][target_id]
         convention_target, version_target = target.split("_")
 
-        # upgrade -------------------------------------------------------------
+        # upgrade (leave the object unchanged if this fails)
+        state = self.__dict__.copy()
+        try:
+            self._upgrade(convention_target, version_target, upgrade)
+        except BaseException:
+            self.__dict__.clear()
+            self.__dict__.update(state)
+            raise
+
+        # display general message
+        if upgrade["message"] is not None:
+            print(upgrade["message"])
+
+        # set default for verify
+        if verify == 'auto':
+            version = self.GLOBAL_SOFAConventionsVersion
+            verify = True if parse(version) >= parse('1.0') else False
+        if verify:
+            self.verify()
+
+    def _upgrade(self, convention_target, version_target, upgrade):
+        """
+        Move and remove data and add missing data to upgrade the convention.
+
+        Parameters
+        ----------
+        convention_target, version_target : str
+            Name and version of the convention to which the data are upgraded.
+        upgrade : dict
+            The upgrade rules, see :py:func:`~Sofa.upgrade_convention`.
+        """
+        convention_current = self.GLOBAL_SOFAConventions
+        version_current = self.GLOBAL_SOFAConventionsVersion
+        sofa_version_current = self.GLOBAL_Version
+
         self._convention = self._load_convention(
             convention_target, version_target)
         sofa_version_target = self._convention["GLOBAL_Version"]["default"]
@@ -904,17 +937,6 @@ class Sofa():
         self.add_missing(True, False)
         self.protected = True
 
-        # display general message
-        if upgrade["message"] is not None:
-            print(upgrade["message"])
-
-        # set default for verify
-        if verify == 'auto':
-            version = self.GLOBAL_SOFAConventionsVersion
-            verify = True if parse(version) >= parse('1.0') else False
-        if verify:
-            self.verify()
-
     def verify(self, issue_handling="raise", mode="write"):
         """
         Verify a SOFA object against the SOFA standard.
-- 
2.43.0


From 1b1dd1e4d9bf3c6751d91621fcc2682520b82d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 35/53] fix: conventions were not found in folders with special
 characters

The name of the folder is escaped before searching it with glob
---
 sofar/update_conventions.py | 5 +++--
 sofar/utils.py              | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 763dc33..8ce2268 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -234,8 +234,9 @@ def _compile_conventions(conventions_path=None):
         raise ValueError(f"{conventions_path} does not exist")
 
     # get list of source conventions
-    csv_files = glob.glob(os.path.join(conventions_path, "*.csv")) + \
-        glob.glob(os.path.join(conventions_path, "deprecated", "*.csv"))
+    base = glob.escape(conventions_path)
+    csv_files = glob.glob(os.path.join(base, "*.csv")) + \
+        glob.glob(os.path.join(base, "deprecated", "*.csv"))
 
     for csv_file in csv_files:
 
diff --git a/sofar/utils.py b/sofar/utils.py
index 9115353..4ee61ea 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -97,9 +97,9 @@ def _get_conventions(return_type, conventions_path=None):
     reg_str = "*.csv" if return_type == "path_source" else "*.json"
 
     # SOFA convention files
-    standardized = list(glob.glob(os.path.join(conventions_path, reg_str)))
-    deprecated = list(
-        glob.glob(os.path.join(conventions_path, "deprecated", reg_str)))
+    base = glob.escape(conventions_path)
+    standardized = list(glob.glob(os.path.join(base, reg_str)))
+    deprecated = list(glob.glob(os.path.join(base, "deprecated", reg_str)))
     paths = standardized + deprecated
 
     conventions_str = "Available SOFA conventions:\n"
-- 
2.43.0


From 362e6751c8ae5633990dc1d80fbca32523ea722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 36/53] fix: shapes of numbers were not compared with python -O

---
 sofar/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/utils.py b/sofar/utils.py
index 4ee61ea..731295a 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -212,7 +212,8 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
         elif type_a == "double" and type_b == "double":
 
             try:
-                assert np.squeeze(a).shape == np.squeeze(b).shape
+                if np.squeeze(a).shape != np.squeeze(b).shape:
+                    raise AssertionError("different shapes")
                 npt.assert_allclose(np.squeeze(a), np.squeeze(b))
             except AssertionError:
                 is_identical = _equals_raise_warning(
-- 
2.43.0


From 9ea9ea9753c595a499ebe009c782f306db1fae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 37/53] fix: inspect failed writing text outside of the
 encoding of the locale

The text file is always written as UTF-8
---
 sofar/sofa.py       | 2 +-
 sofar/sofastream.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 8832b0c..991f919 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -486,7 +486,7 @@ class Sofa():
 
         # write to text file
         if file is not None:
-            with open(file, 'w') as f_id:
+            with open(file, 'w', encoding="utf-8") as f_id:
                 f_id.write(info_str + "\n")
 
         # output to console
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index fa45bb6..b3f074b 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -300,7 +300,7 @@ class SofaStream():
 
         # write to text file
         if file is not None:
-            with open(file, 'w') as f_id:
+            with open(file, 'w', encoding="utf-8") as f_id:
                 f_id.write(info_str + "\n")
 
         # print to console
-- 
2.43.0


From fd9317fac33802565efa446b26491723438975b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:03 +0000
Subject: [PATCH 38/53] fix: check of congruency skipped conventions next to
 removed ones

The lists of conventions were changed while iterating over them
---
 sofar/update_conventions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 8ce2268..ca00238 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -440,13 +440,13 @@ def _check_congruency(save_dir=None, branch="master"):
 
     # check if lists are identical. Remove items not contained in both lists
     report = ""
-    for convention in sofaconventions:
+    for convention in sofaconventions.copy():
         if convention.startswith(("General_", "GeneralString_")):
             sofaconventions.remove(convention)
         elif convention not in sofatoolbox:
             sofaconventions.remove(convention)
             report += (f"- {convention} is missing in SOFAtoolbox\n")
-    for convention in sofatoolbox:
+    for convention in sofatoolbox.copy():
         if convention.startswith(("General_", "GeneralString_")):
             sofatoolbox.remove(convention)
         elif convention not in sofaconventions:
-- 
2.43.0


From 7e2712c67fa87fb13e20387646e1aa5100e54599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:04 +0000
Subject: [PATCH 39/53] fix: check of congruency compared error pages of failed
 downloads

---
 sofar/update_conventions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index ca00238..4fec8ce 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -420,7 +420,7 @@ def _check_congruency(save_dir=None, branch="master"):
 
     # get file names of conventions from sofaconventions.org
     url = urls_check[0]
-    page = requests.get(url).text
+    page = _download(url).text
     soup = BeautifulSoup(page, 'html.parser')
     sofaconventions = [os.path.split(node.get('href'))[1]
                        for node in soup.find_all('a')
@@ -431,7 +431,7 @@ def _check_congruency(save_dir=None, branch="master"):
 
     # get file names of conventions from github
     url = urls_check[1]
-    page = requests.get(url).text
+    page = _download(url).text
     sofatoolbox = re.findall(
         r'"SOFAtoolbox/conventions/([^"]+\.csv)"', page)
 
@@ -457,7 +457,7 @@ def _check_congruency(save_dir=None, branch="master"):
     for convention in sofaconventions:
 
         # download SOFA convention definitions to package directory
-        data = [requests.get(url + convention) for url in urls_load]
+        data = [_download(url + convention) for url in urls_load]
         # remove trailing tabs and windows style line breaks
         data = [d.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
                 for d in data]
-- 
2.43.0


From db15be99ba787ef0e948e8e9f5bad8848a030440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:51 +0000
Subject: [PATCH 40/53] fix: verification failed for data of custom variables
 with more than four dimensions

---
 sofar/sofa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 991f919..10ac1de 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1251,9 +1251,10 @@ class Sofa():
                 if dim not in "ICS" and dim.islower():
                     # numeric data (one dimensional data can be of shape
                     # (N, ) and (1, N))
+                    ndim = len(dimensions.split(", ")[0])
                     self._api[dim.upper()] = np.size(value) \
-                        if len(dimensions.split(", ")[0]) == 1 \
-                        else _nd_newaxis(value, 4).shape[idx]
+                        if ndim == 1 \
+                        else _nd_newaxis(value, ndim).shape[idx]
                 if dim == "S":
                     # string data
                     S = max(S, np.max(self._get_size_and_shape_of_string_var(
-- 
2.43.0


From 31ceee52a26def631d451b5f48ca488d7b47998a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:49 +0000
Subject: [PATCH 41/53] fix: attributes of data variables could not be added
 (e.g. Data_Real_Units)

---
 sofar/sofa.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 10ac1de..eb26e6b 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -662,9 +662,10 @@ class Sofa():
             raise ValueError(("underscores '_' in the name are only "
                               "allowed for attributes"))
         if dtype == "attribute":
-            if name.count("_") != 1 or \
-                    (name.startswith("Data_") and (name.count("_") == 0 or
-                                                   name.count("_") > 2)):
+            # names of data contain an underscore (Data_IR_Units)
+            is_data = name.startswith("Data_") and name.count("_") == 2 and \
+                hasattr(self, name[:name.rindex("_")])
+            if name.count("_") != 1 and not is_data:
                 raise ValueError((f"The name of {name} must have the "
                                   "form VariableName_AttributeName"))
             if not name.startswith("GLOBAL_") and \
-- 
2.43.0


From 430e2d6b3d28e98f94469a61eb9190abda63d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 42/53] fix: data of variables with . or / in the name were
 lost in SOFA files

---
 sofar/sofa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index eb26e6b..d056612 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -661,6 +661,9 @@ class Sofa():
         if "_" in name and dtype != "attribute":
             raise ValueError(("underscores '_' in the name are only "
                               "allowed for attributes"))
+        if dtype != "attribute" and ("." in name or "/" in name):
+            # the data would not be found again in SOFA files
+            raise ValueError("'.' and '/' are not allowed in the name")
         if dtype == "attribute":
             # names of data contain an underscore (Data_IR_Units)
             is_data = name.startswith("Data_") and name.count("_") == 2 and \
-- 
2.43.0


From 3038ca822156141c895173ed501ebf560babed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:08 +0000
Subject: [PATCH 43/53] fix: invalid compression levels destroyed existing
 files

---
 sofar/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sofar/io.py b/sofar/io.py
index aa51f36..5c613ef 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -282,6 +282,9 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                     "writing to disk if possible."), stacklevel=2)
 
     # setting the netCDF compression parameter
+    if compression not in range(10):
+        raise ValueError(
+            f"compression is {compression} but must be between 0 and 9")
     use_zlib = compression != 0
 
     # update the dimensions
-- 
2.43.0


From 208d32ff8b1e5211db3192e7f581720898517f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:44 +0000
Subject: [PATCH 44/53] fix: equals took missing data for equal to any data

---
 sofar/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sofar/utils.py b/sofar/utils.py
index 731295a..010635a 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -212,9 +212,13 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
         elif type_a == "double" and type_b == "double":
 
             try:
-                if np.squeeze(a).shape != np.squeeze(b).shape:
+                a, b = np.squeeze(a), np.squeeze(b)
+                if a.shape != b.shape:
                     raise AssertionError("different shapes")
-                npt.assert_allclose(np.squeeze(a), np.squeeze(b))
+                # missing data are masked
+                npt.assert_array_equal(
+                    np.ma.getmaskarray(a), np.ma.getmaskarray(b))
+                npt.assert_allclose(np.ma.compressed(a), np.ma.compressed(b))
             except AssertionError:
                 is_identical = _equals_raise_warning(
                     f"not identical: different values for {key}", verbose)
-- 
2.43.0


From 4ea8dcd3c834341017187a20b8188f8d0053d719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:46 +0000
Subject: [PATCH 45/53] fix: verification refused arrays of unsigned integers

---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index d056612..f9ed910 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1089,7 +1089,7 @@ class Sofa():
                 if not isinstance(
                         value, (int, float, np.ndarray, np.number)) or \
                         (isinstance(value, (np.ndarray, np.number)) and
-                         value.dtype.kind not in ['i', 'f']):
+                         value.dtype.kind not in ['i', 'u', 'f']):
                     current_error += (f"- {key} must be int or float "
                                       f"but is {type(value)}\n")
 
-- 
2.43.0


From e8b8dfad218974b8d0f2de8f3f30cff3db935139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:48 +0000
Subject: [PATCH 46/53] fix: SofaStream opened another file if the name starts
 with a blank

---
 sofar/sofastream.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index b3f074b..5ecff07 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -2,6 +2,7 @@
 Read desired data from SOFA-file directly from disk without loading entire
 file into memory.
 """
+import pathlib
 from netCDF4 import Dataset
 import numpy as np
 
@@ -73,7 +74,12 @@ class SofaStream():
         Executed when entering a ``with`` statement
         (see documentation above).
         """
-        self._file = Dataset(self._filename, mode="r")
+        filename = self._filename
+        if "://" not in str(filename):
+            # complete name because the netCDF library discards blanks at the
+            # beginning of relative file names
+            filename = pathlib.Path(filename).absolute()
+        self._file = Dataset(filename, mode="r")
         return self
 
     def __exit__(self, *args):
-- 
2.43.0


From 717a2a52a47cffa537c12ebca9b285c32e17355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:51 +0000
Subject: [PATCH 47/53] fix: only conventions in the folder 'deprecated' are
 documented as deprecated

If the path of the installation contained 'deprecated' all conventions were
documented as being deprecated.
---
 docs/resources/conventions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/docs/resources/conventions.py b/docs/resources/conventions.py
index 643f10c..168cdc1 100644
--- a/docs/resources/conventions.py
+++ b/docs/resources/conventions.py
@@ -63,7 +63,7 @@ for path, name_version in zip(paths, names_versions):
     name, version = name_version
 
     label = f'{name} v{version}'
-    if 'deprecated' in path:
+    if os.path.basename(os.path.dirname(path)) == 'deprecated':
         label += ' (deprecated)'
     reference = f'{name}_{version}'
 
@@ -82,7 +82,8 @@ for path, name_version in zip(paths, names_versions):
         convention = json.load(file)
 
     # write section title
-    if 'deprecated' in path and not deprecated:
+    if (os.path.basename(os.path.dirname(path)) == 'deprecated'
+            and not deprecated):
         docs += 'Deprecated\n----------\n\n'
         deprecated = True
 
-- 
2.43.0


From b753ebe95edb7fabf729782a3d0b7b532d427951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:51 +0000
Subject: [PATCH 48/53] fix: write the documentation of the conventions in
 UTF-8 in every locale

---
 docs/resources/conventions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/resources/conventions.py b/docs/resources/conventions.py
index 168cdc1..c5b686a 100644
--- a/docs/resources/conventions.py
+++ b/docs/resources/conventions.py
@@ -159,5 +159,5 @@ for path, name_version in zip(paths, names_versions):
 
 # write docs to rst file ------------------------------------------------------
 docs_file = os.path.join(base_dir, 'conventions.rst')
-with open(docs_file, 'w') as file:
+with open(docs_file, 'w', encoding='utf-8') as file:
     file.writelines(docs)
-- 
2.43.0


From 8ff3d2613b27a4edf29cca2783fbd363b529b894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:02 +0000
Subject: [PATCH 49/53] fix: reading data named like methods of SOFA objects
 overwrote the methods

---
 sofar/io.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sofar/io.py b/sofar/io.py
index 5c613ef..8ebfa9b 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -159,6 +159,7 @@ def _read_netcdf(filename, verify, verbose, mode):
         # load data
         for var in file.variables.keys():
 
+            _verify_entry_name(var.replace(".", "_"))
             value = _format_value_from_netcdf(file[var][:], var)
             all_attr.append(var.replace(".", "_"))
 
@@ -176,6 +177,7 @@ def _read_netcdf(filename, verify, verbose, mode):
             # load variable attributes
             for attr in [a for a in file[var].ncattrs() if a not in skip]:
 
+                _verify_entry_name(var.replace(".", "_") + "_" + attr)
                 value = file[var].getncattr(attr)
                 all_attr.append(var.replace(".", "_") + "_" + attr)
 
@@ -221,6 +223,17 @@ def _read_netcdf(filename, verify, verbose, mode):
     return sofa
 
 
+def _verify_entry_name(name):
+    """
+    Raise an error if an entry contained in a SOFA file would overwrite the
+    methods, properties, or internal data of SOFA objects.
+    """
+    if name.startswith("_") or hasattr(sf.Sofa, name):
+        raise ValueError(
+            f"The SOFA file contains data named {name}, which can not be read "
+            "because the name is used by sofar")
+
+
 def write_sofa(filename: str, sofa: sf.Sofa, compression=4):
     """
     Write a SOFA object to disk as a SOFA file.
-- 
2.43.0


From 07ab038ab264be8d8c29495c9f8850622254d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:36 +0000
Subject: [PATCH 50/53] fix: read big-endian data

---
 sofar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 8ebfa9b..4078212 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -435,7 +435,7 @@ def _format_value_from_netcdf(value, key):
         The formatted value.
     """
 
-    if "float" in str(value.dtype) or "int" in str(value.dtype):
+    if value.dtype.kind in "iuf":
         if np.ma.is_masked(value):
             warnings.warn(f"Entry {key} contains missing data", stacklevel=3)
         else:
-- 
2.43.0


From 9e0e7bd1ef07af3bc094a4c748e2cf048b50ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:10 +0000
Subject: [PATCH 51/53] fix: saving texts from files with other names of the
 dimension S destroyed files

---
 sofar/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sofar/io.py b/sofar/io.py
index 4078212..64b226f 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -169,6 +169,9 @@ def _read_netcdf(filename, verify, verbose, mode):
                 dimensions = "".join(list(file[var].dimensions))
                 # SOFA only uses dtypes 'double' and 'S1' but netCDF has more
                 dtype = "string" if file[var].datatype == "S1" else "double"
+                # (the characters are always contained in the last dimension)
+                if dtype == "string":
+                    dimensions = "".join(file[var].dimensions[:-1]) + "S"
                 sofa._add_custom_api_entry(var.replace(".", "_"), value, None,
                                            dimensions, dtype)
                 custom.append(var.replace(".", "_"))
-- 
2.43.0


From 71cf413c1fde711c6025e70f33eb437f715d9215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:10 +0000
Subject: [PATCH 52/53] fix: read text variables without dimensions

---
 sofar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 64b226f..e3f3a85 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -448,7 +448,7 @@ def _format_value_from_netcdf(value, key):
         # string arrays are stored in masked arrays with empty strings '' being
         # masked. Convert to regular arrays with unmasked empty strings
         if str(value.dtype)[1] == "S":
-            value = chartostring(value, encoding="utf-8")
+            value = chartostring(np.atleast_1d(value), encoding="utf-8")
         value = np.atleast_1d(value).astype("U")
     else:
         raise TypeError(
-- 
2.43.0


From d22518c933b5c66d6911afc91e4e827de41d2579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:10 +0000
Subject: [PATCH 53/53] fix: failed upgrades lost the description of custom
 data

---
 sofar/sofa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index f9ed910..bedcedc 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -836,6 +836,8 @@ class Sofa():
 
         # upgrade (leave the object unchanged if this fails)
         state = self.__dict__.copy()
+        if hasattr(self, "_custom"):
+            state["_custom"] = self._custom.copy()
         try:
             self._upgrade(convention_target, version_target, upgrade)
         except BaseException:
-- 
2.43.0

