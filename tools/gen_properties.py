"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json
import os
import re

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(),
         observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s))
                      for s in state],
            "mechanism": [dict(zip(("name", "where"), m))
                          for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": None}})


NOSUB = ("The conventions submodule is absent, so none of the existing tests "
         "of this behaviour can even run here; ")

prop("C01", "Saving and reading back returns the same data",
     "Every SOFA object that passes verification can be written, and reading "
     "the file back gives an object with exactly the same entries (standard "
     "and custom), equal text, bit-identical numeric values and the same "
     "dimension sizes; only singleton dimensions may differ. This holds for "
     "every combination of dimension sizes, entry kinds, text contents "
     "(including non-ASCII and empty text) and compression level, and again "
     "when the object that was read is written once more, and for objects read from files of other programs.",
     ["inputs", "histories"],
     "all valid objects: conventions x sizes of M,R,E,N x accepted ways to "
     "give a value x custom entries x text alphabet x compression 0..9, and "
     "write-read-write-read chains",
     NOSUB + "upstream they write the defaults of each convention plus two "
     "hand-picked shapes, never the product of shapes, text and custom data.",
     ["sofar/io.py", "sofar/sofa.py"],
     [("_write_sofa", "sofar/io.py:259"),
      ("_format_value_for_netcdf", "sofar/io.py:343"),
      ("_format_value_from_netcdf", "sofar/io.py:388"),
      ("_read_netcdf", "sofar/io.py:107")],
     [("_dimensions/_api", "dimensions and sizes used for writing",
       "sofar/sofa.py:1163")],
     ["write_sofa", "read_sofa"])

prop("C02", "Written files have the SOFA/netCDF layout the object declares",
     "A written file contains exactly one netCDF variable per variable of the "
     "object under its SOFA name ('Data.' prefix for data), stored as double "
     "or as characters over one of the dimension combinations the convention "
     "allows, one text attribute per attribute entry attached to the file or "
     "to its variable, and each dimension with the size the object reports "
     "(entirely empty text occupies one character). "
     "Values sit at the index positions given by the dimensions, and nothing "
     "else is in the file.",
     ["inputs"],
     "all valid objects of a bounded alphabet, judged with the netCDF library "
     "alone (not with the reader of the package)",
     NOSUB + "they only check write against read, so errors that cancel out "
     "are invisible to them.",
     ["sofar/io.py"],
     [("_write_sofa", "sofar/io.py:259"),
      ("_atleast_nd", "sofar/utils.py:222")],
     [], ["file content via netCDF4.Dataset"])

prop("C03", "Reading returns exactly what the file contains",
     "Reading a file gives an object whose entries are exactly the variables "
     "and attributes stored in it, with equal values however they are stored (byte order, "
     "compression, unlimited dimensions, format of netCDF): defaults of the "
     "convention that are not in the file are not invented, unknown entries "
     "are kept as custom data, time stamps are untouched, missing data are "
     "returned masked with a warning, arrays lose at most trailing "
     "dimensions of length one, and the file is not modified. By default "
     "data are verified if the version of the convention is 1.0 or higher. "
     "The raw netCDF reader does the same for files of unknown or invalid convention, "
     "which the regular reader refuses with a ValueError. Data with names that "
     "objects use themselves (their methods, or a leading underscore) are refused with a ValueError.",
     ["inputs"],
     "all files that differ from a convention by a bounded set of removed, "
     "added, retyped or masked entries, unknown conventions and versions",
     NOSUB + "they read only files the package itself wrote with all default "
     "entries present.",
     ["sofar/io.py"],
     [("_read_netcdf", "sofar/io.py:107"),
      ("_format_value_from_netcdf", "sofar/io.py:388")],
     [], ["read_sofa", "read_sofa_as_netcdf"])

prop("C04", "A refused save leaves the disk untouched",
     "Saving an object that does not verify in write mode (missing mandatory "
     "data, wrong type, shape, name, value or unit case, deprecated "
     "convention) or with an invalid compression raises an error, leaves an existing target file "
     "byte-for-byte unchanged and creates no file otherwise. A successful "
     "save creates or replaces exactly the target file, whatever was there "
     "before, and changes no entry of the saved object.",
     ["inputs", "histories"],
     "every kind of violation x target present/absent/foreign content, and "
     "histories of accepted and refused saves to the same name",
     NOSUB + "no test looks at the disk after a refused save.",
     ["sofar/io.py", "sofar/sofa.py"],
     [("_write_sofa verifies before opening", "sofar/io.py:291")],
     [], ["directory content", "file bytes"])

prop("C05", "File names are honoured",
     "'.sofa' is appended to a file name that does not end with it and "
     "otherwise the name is kept, for strings and path objects alike, when "
     "writing as well as when reading or streaming. Data saved under different names "
     "therefore never share or overwrite a file, and data are found again "
     "under the name used for saving.",
     ["inputs"],
     "all file names from an alphabet of stems (dots, spaces, several "
     "suffixes, unicode) x suffixes x directories x str/Path, and all pairs",
     NOSUB + "they use one plain file name.",
     ["sofar/io.py"],
     [("with_suffix in read", "sofar/io.py:110"),
      ("with_suffix in write", "sofar/io.py:266")],
     [], ["write_sofa", "read_sofa", "directory listing"])

prop("C06", "Streaming access agrees with the file",
     "For every variable, global attribute and variable attribute in a file, "
     "the stream returns the stored values (any slice of a variable equals "
     "the same slice of the fully read data), and the dimension sizes it "
     "reports are those of the file. A name that is not in the file "
     "(or any name before the file is opened) raises AttributeError, an unknown dimension raises ValueError, and using the "
     "stream never changes the file.",
     ["inputs", "histories"],
     "all entries of all files of a bounded alphabet (including custom names "
     "that look alike), all short access sequences, all slices of a bounded "
     "alphabet",
     NOSUB + "they access three entries of one file.",
     ["sofar/sofastream.py"],
     [("SofaStream.__getattr__", "sofar/sofastream.py:80"),
      ("SofaStream.get_dimension", "sofar/sofastream.py:188")],
     [("_data", "last item returned", "sofar/sofastream.py:100")],
     ["SofaStream"])

prop("C07", "Inspection reports every entry truthfully",
     "The inspection report of an object lists each of its entries exactly "
     "once: the value of attributes and single values, and for arrays the "
     "size of every dimension plus the values when there are at most six. "
     "The report written to a file equals the printed one, objects that "
     "violate the standard can be inspected as well, and the report of a "
     "stream lists the same entries with the same sizes and the same values "
     "of attributes and numbers.",
     ["inputs"],
     "all objects of a bounded alphabet, valid and invalid",
     NOSUB + "they check two lines of one report.",
     ["sofar/sofa.py", "sofar/sofastream.py"],
     [("Sofa.inspect", "sofar/sofa.py:417"),
      ("SofaStream.inspect", "sofar/sofastream.py:221")],
     [], ["stdout", "report file"])

prop("C08", "New objects hold exactly the entries of their convention",
     "A new object holds exactly the entries of the requested convention and "
     "version (only the mandatory ones if so requested) with the default "
     "values of the convention, arrays having the declared number of "
     "dimensions; only date, API and application entries are filled in by "
     "the package. 'latest' selects the numerically highest version, and an "
     "unknown convention or version is refused with ValueError (TypeError "
     "for a name that is no string).",
     ["configurations", "inputs"],
     "all conventions and versions of a bounded family of convention sets x "
     "mandatory x verify x version selection",
     NOSUB + "they create a handful of objects and look at single entries.",
     ["sofar/sofa.py"],
     [("Sofa.__init__", "sofar/sofa.py:91"),
      ("_convention_to_sofa", "sofar/sofa.py:1715"),
      ("_load_convention", "sofar/sofa.py:1656")],
     [], ["object entries"])

prop("C09", "Protection of read-only and mandatory data",
     "While an object is protected, no sequence of operations can add an "
     "entry by assignment, change an entry the convention marks read-only or "
     "delete an entry it marks mandatory; each attempt raises TypeError. "
     "Objects are protected after creation, after reading and after every "
     "public operation, whether it succeeded or raised, unless the user "
     "switched protection off.",
     ["histories"],
     "all operation sequences up to a depth over set, delete, add, "
     "add_missing, verify, copy, upgrade, protect/unprotect",
     NOSUB + "they try three single assignments and deletions.",
     ["sofar/sofa.py"],
     [("__setattr__", "sofar/sofa.py:133"),
      ("__delattr__", "sofar/sofa.py:160"),
      ("protected", "sofar/sofa.py:598")],
     [("_protected", "protection flag", "sofar/sofa.py:87"),
      ("_read_only_attr", "read only names", "sofar/sofa.py:89")],
     ["setattr/delattr"])

prop("C10", "A refused operation leaves the object as it was",
     "Whenever setting, adding, deleting or querying is refused with an "
     "error, all entries, their values, the custom entries and the protection "
     "of a protected object are the same as before the call, and every "
     "later operation behaves as if the call had never been made.",
     ["histories", "fault_sequences"],
     "all histories in which a refused call is inserted at any position "
     "before further operations",
     NOSUB + "they assert that calls raise but never look at the object "
     "afterwards.",
     ["sofar/sofa.py"],
     [("_add_entry/_add_custom_api_entry", "sofar/sofa.py:619"),
      ("__setattr__", "sofar/sofa.py:133"),
      ("upgrade_convention", "sofar/sofa.py:731")],
     [("_custom", "custom entries", "sofar/sofa.py:719")],
     ["object entries", "protected"])

prop("C11", "Assigned values are stored faithfully",
     "Assigning a list, tuple or number stores the same values as an array "
     "with at least two dimensions, or as a scalar if there is only one "
     "value; strings and arrays are stored unchanged in shape, type and "
     "value. Reading the entry returns the value of the latest accepted "
     "assignment and no other entry changes.",
     ["inputs", "histories"],
     "all values of a bounded alphabet of nested lists, tuples, scalars, "
     "strings and arrays, for all kinds of entries, and assignment sequences",
     NOSUB + "they assign two values.",
     ["sofar/sofa.py"],
     [("__setattr__", "sofar/sofa.py:147")], [], ["getattr"])

prop("C12", "Custom entries have a consistent life cycle",
     "A custom entry can be added exactly when its name is new and its "
     "name, type and dimensions are well formed (an attribute is named "
     "Variable_Attribute for an existing variable or GLOBAL, a variable "
     "has no underscore, dot or slash in its name, the last dimension of "
     "text is S), otherwise ValueError is raised; new dimensions are "
     "announced by a warning. An added entry keeps its value, type and "
     "dimensions through verification, adding missing data, copying, "
     "saving, reading and upgrading; deleting it removes every trace so "
     "that the name can be added again with another type or other "
     "dimensions.",
     ["histories", "inputs"],
     "all sequences up to a depth of add, delete, re-add, verify, "
     "add_missing, copy, save+read, upgrade over colliding names",
     NOSUB + "they add, verify and delete each name once.",
     ["sofar/sofa.py", "sofar/io.py"],
     [("_add_entry", "sofar/sofa.py:619"),
      ("_add_custom_api_entry", "sofar/sofa.py:660"),
      ("_reset_convention", "sofar/sofa.py:1619")],
     [("_custom", "custom entries", "sofar/sofa.py:719")],
     ["verify", "write_sofa", "get_dimension"])
prop("C13", "Objects are independent of each other",
     "A copy equals its original, and no operation on one object (original, "
     "copy or any other object, of the same or another convention) changes "
     "the entries, protection, custom data or verification result of "
     "another. Arrays held by a copy are not shared with the original.",
     ["histories"],
     "all interleavings of bounded operation sequences on two and three "
     "objects, compared with running each sequence alone",
     NOSUB + "they compare ids of one copy.",
     ["sofar/sofa.py"],
     [("copy", "sofar/sofa.py:1615"),
      ("class level defaults", "sofar/sofa.py:87")],
     [("_read_only_attr", "class level list", "sofar/sofa.py:89")],
     ["object entries"])

prop("C14", "Adding missing data adds exactly what is missing",
     "Adding missing data gives each absent mandatory and/or optional entry "
     "(as selected) of the convention its default value, touches no entry "
     "that is present and no custom entry, reports exactly the added names "
     "and changes nothing when repeated.",
     ["inputs", "histories"],
     "all subsets of removed entries of a small convention and all single "
     "and pair removals of the large ones x mandatory x optional x verbose",
     NOSUB + "they remove two fixed entries.",
     ["sofar/sofa.py"],
     [("add_missing", "sofar/sofa.py:494")], [], ["object entries", "stdout"])

prop("C15", "Verification finds missing mandatory data and wrong types",
     "Verification fails and names the entry whenever a mandatory entry is "
     "missing, an attribute is no text, a numeric variable is no real number "
     "or array of real numbers, or a text variable is no text or text array, "
     "and it raises none of these issues otherwise. When issues are not "
     "raised, missing mandatory entries are added with their default value.",
     ["inputs"],
     "all entries x removal and all type deviations of a bounded alphabet, "
     "alone and in pairs",
     NOSUB + "they try a dozen hand-picked values.",
     ["sofar/sofa.py"],
     [("verify 1 and 2", "sofar/sofa.py:991")], [], ["verify"])

prop("C16", "Dimensions are detected and enforced consistently",
     "Each dimension has the size of the variables that define it, fixed "
     "dimensions have their fixed size, and verification accepts a variable "
     "exactly if its shape (up to trailing singleton dimensions) matches one "
     "of its allowed dimension combinations, otherwise it fails naming that "
     "variable. The sizes returned on request are these sizes, and asking "
     "for sizes raises ValueError if types or shapes are wrong or the "
     "dimension does not exist.",
     ["inputs"],
     "all assignments of sizes to the variables of all data types (including "
     "custom variables with own dimensions and text arrays) over a bounded "
     "size alphabet",
     NOSUB + "they test a single wrong shape and size one.",
     ["sofar/sofa.py", "sofar/utils.py"],
     [("verify 4 and 5", "sofar/sofa.py:1163"),
      ("get_dimension", "sofar/sofa.py:262"),
      ("_atleast_nd/_nd_newaxis", "sofar/utils.py:222")],
     [("_api", "dimension sizes", "sofar/sofa.py:1166")],
     ["verify", "get_dimension"])

prop("C17", "Value rules of the standard are enforced exactly",
     "For any rule set, verification fails exactly if an entry that is "
     "present has a value outside its allowed values, an entry it generally "
     "requires is absent, or, given its current value, a required entry is "
     "absent, has a forbidden value or a dimension has a forbidden size; "
     "every offending entry is named. Values are compared ignoring case "
     "except for data type and convention name.",
     ["inputs", "configurations"],
     "all objects over the product of values and presence of rule-related "
     "entries, under all rule sets of a bounded grammar",
     NOSUB + "they need data files that are not in the repository.",
     ["sofar/sofa.py"],
     [("verify 6", "sofar/sofa.py:1246"),
      ("_verify_value", "sofar/sofa.py:1407")], [], ["verify"])

prop("C18", "Units are recognised in all permitted spellings only",
     "A unit text is accepted exactly if it has the required number of units, "
     "separated by comma, comma and space, or space, each being a known "
     "alias of the required unit in the required order. Upper case letters "
     "are accepted when reading and refused when writing.",
     ["inputs"],
     "all unit texts built from an alphabet of aliases, near misses, "
     "separators and case patterns up to length four x reference units x "
     "modes",
     NOSUB + "they try six unit texts.",
     ["sofar/sofa.py"],
     [("_verify_unit", "sofar/sofa.py:1456"),
      ("verify 7", "sofar/sofa.py:1342")], [], ["verify"])

prop("C19", "Entry names follow the standard's naming rules",
     "Verification fails and names the entry if an attribute has no variable, "
     "a variable name contains an underscore (other than the Data prefix), a name uses a reserved prefix "
     "or a custom entry repeats the name of an entry of the convention (also "
     "after removing the GLOBAL prefix); other names are accepted.",
     ["inputs"],
     "all names composed from an alphabet of name parts x entry type, alone "
     "and in pairs",
     NOSUB + "they try seven names.",
     ["sofar/sofa.py"],
     [("verify 3", "sofar/sofa.py:1084")], [], ["verify"])

prop("C20", "Outdated conventions are flagged",
     "Data of a deprecated convention verify with a warning in read mode and "
     "fail in write mode, so they can be read but not saved; data of a "
     "preliminary version (below 1.0) always cause a warning when created or "
     "verified, and saving a version older than the latest available one "
     "warns. Data of current conventions cause none of these.",
     ["configurations"],
     "all conventions and versions of a bounded family of convention sets x "
     "operation x mode",
     NOSUB + "they sample one preliminary and one outdated version.",
     ["sofar/sofa.py", "sofar/io.py"],
     [("verify 8", "sofar/sofa.py:1360"),
      ("write check for latest", "sofar/io.py:268"),
      ("verify='auto'", "sofar/sofa.py:105")], [],
     ["warnings", "exceptions"])

prop("C21", "All ways to verify agree and leave the data alone",
     "Raising, printing, returning and ignoring issues reach the same "
     "verdict: an object for which one of them reports an error or a warning "
     "is reported by the others in their own way (ignoring reports nothing). "
     "Verification never changes an entry except for adding missing mandatory "
     "data when not raising, and apart from that repeating it gives the same "
     "result.",
     ["inputs", "histories"],
     "all objects of a bounded alphabet of violations x issue handling x mode "
     "x repetition sequences",
     NOSUB + "they test the handling helper with two texts.",
     ["sofar/sofa.py"],
     [("_verify_handle_issues", "sofar/sofa.py:1543"),
      ("verify", "sofar/sofa.py:884")], [],
     ["exceptions", "warnings", "stdout", "return value"])

prop("C22", "Comparison of objects is a faithful equality",
     "Two objects compare equal exactly if, after the requested exclusion, "
     "they have the same entries of the same types with equal text and equal "
     "numbers (within floating point tolerance, not at its edge) of the same shape up to "
     "singleton dimensions, where missing (masked) numbers equal only missing "
     "numbers. The comparison is reflexive, symmetric, never "
     "raises for comparable objects, changes neither object and does not "
     "depend on the verbosity.",
     ["inputs"],
     "all pairs of objects that differ in a bounded set of ways x exclusion "
     "x verbosity",
     NOSUB + "they compare seven value pairs in one order.",
     ["sofar/utils.py"],
     [("equals", "sofar/utils.py:124")], [], ["equals"])

prop("C23", "Available conventions are discovered completely",
     "The list of conventions shows each installed convention and version, "
     "current and deprecated, exactly once; each listed pair can be created "
     "and read, nothing else can, and names that are prefixes of other names "
     "are never confused, also if the installed conventions change while the "
     "package is in use. The reported version names the package version and "
     "the version of the installed standard.",
     ["configurations", "histories"],
     "all sets of installed conventions of a bounded universe of colliding "
     "names and versions, in current and deprecated folder, and all changes "
     "between some of them within a process",
     "The one passing test only sees the header line of an empty list.",
     ["sofar/utils.py", "sofar/sofa.py"],
     [("_get_conventions", "sofar/utils.py:65"),
      ("_verify_convention_and_version", "sofar/utils.py:22"),
      ("version", "sofar/utils.py:10"),
      ("_load_convention", "sofar/sofa.py:1656")], [],
     ["list_conventions", "Sofa", "version"])

prop("C24", "Upgrading conventions follows the upgrade rules",
     "Asking for an upgrade lists exactly the permitted targets and changes "
     "nothing; upgrading to a permitted target sets the identity of the new "
     "convention, moves (and re-orders the axes of) and removes the data "
     "named by the rules, adds missing mandatory data and keeps all other "
     "entries, including custom ones. Data that are up to date, have no "
     "rules or are given a target that is not permitted stay unchanged, and so does an object whose "
     "upgrade fails. The result is verified if asked for, by default if the "
     "new version is 1.0 or higher.",
     ["inputs", "configurations", "histories"],
     "all upgrade rules of a bounded grammar and of the built-in fixture x "
     "object contents x targets, and upgrade chains",
     NOSUB + "they only check the printed text.",
     ["sofar/sofa.py"],
     [("upgrade_convention", "sofar/sofa.py:731")], [],
     ["object entries", "return value"])

prop("C25", "Updating the installed conventions converges to the published",
     "After confirming an update, each published convention is installed "
     "exactly once with the published content, as current or deprecated as "
     "published, together with its compiled form, and conventions that are "
     "not published are kept. Without changes, or if the user declines, "
     "nothing is modified, line-ending and trailing-tab differences are no "
     "change, and a second update reports that all is up to date.",
     ["configurations", "histories"],
     "all combinations of published state x installed state per convention "
     "for two conventions x answer, and sequences of updates",
     NOSUB + "the only test needs the network and the submodule.",
     ["sofar/update_conventions.py"],
     [("update_conventions", "sofar/update_conventions.py:13"),
      ("_compile_conventions", "sofar/update_conventions.py:186")], [],
     ["folder content", "stdout"])

prop("C26", "A failed download never damages the installed conventions",
     "If any request of an update fails (no connection, time-out, error "
     "status, interruption) at any point, the update ends with an error and "
     "the installed conventions are exactly as before. A later undisturbed "
     "update gives the same result as if the failure had not happened.",
     ["fault_sequences", "crash_points"],
     "every request position x every kind of failure, alone and followed by "
     "a retry, for several installed and published states",
     "No test injects a failure, the only test of updating needs the "
     "network.",
     ["sofar/update_conventions.py"],
     [("download to temporary folder", "sofar/update_conventions.py:85")],
     [], ["folder content"])

prop("C31", "An interrupted installation is completed by the next update",
     "If an update is interrupted or a change of the disk fails at any point "
     "while the published conventions are being installed, the next "
     "undisturbed update installs every published convention completely (table "
     "and compiled form, exactly once), whatever was published in the "
     "meantime, and reports afterwards that all is up to date. Conventions "
     "that are not part of the update are never affected by the "
     "interruption.",
     ["crash_points", "fault_sequences"],
     "every state of the disk during the update, with every torn version of "
     "the file being written, and every failing change, from several installed "
     "and published states; each continued with the next update",
     "No test interrupts an update.",
     ["sofar/update_conventions.py"],
     [("installation of downloaded conventions",
       "sofar/update_conventions.py:173"),
      ("_compile_conventions", "sofar/update_conventions.py:211")],
     [], ["folder content"])

prop("C27", "Compiling conventions is faithful",
     "The compiled form of a convention table has one entry per row with the "
     "stated flags, dimensions, type, comment and default: integers and "
     "decimals as numbers, bracketed lists as (nested) lists of numbers, "
     "versions as text with a decimal, empty cells as empty text or null. "
     "Entries are ordered global, other, data, each in table order, and a row "
     "that cannot be parsed raises an error naming the file.",
     ["inputs"],
     "all tables composed of rows from an alphabet of cell contents "
     "(including white space variants and missing trailing cells)",
     NOSUB + "they only recompile the shipped tables.",
     ["sofar/update_conventions.py"],
     [("_convention_csv2dict", "sofar/update_conventions.py:223")], [],
     ["json files"])

prop("C28", "Listings of dimensions and convention contents are correct",
     "Listing the dimensions of an object or a stream shows each dimension "
     "once with its size and the meaning that follows from data type and "
     "coordinate types. The convention information shows exactly the "
     "entries matching the requested category with their type, dimensions "
     "and flags, and refuses unknown categories with ValueError.",
     ["inputs"],
     "all data types x coordinate types x sizes x custom dimensions; all "
     "categories x conventions x removed entries",
     NOSUB + "they look for single lines.",
     ["sofar/sofa.py", "sofar/sofastream.py"],
     [("Sofa.list_dimensions", "sofar/sofa.py:193"),
      ("Sofa.info", "sofar/sofa.py:310"),
      ("SofaStream.list_dimensions", "sofar/sofastream.py:116")], [],
     ["stdout"])

prop("C29", "Files are released in every outcome",
     "After reading, writing, streaming or updating has ended, successfully "
     "or with an error at any point, no file opened by the package is left "
     "open, and no temporary file is left behind.",
     ["inputs", "fault_sequences"],
     "all outcomes of reading, writing and streaming over valid, invalid, "
     "corrupt and missing files, exceptions raised by the user inside a "
     "stream, and failures of the netCDF library at each call",
     NOSUB + "no test looks at open files.",
     ["sofar/io.py", "sofar/sofastream.py"],
     [("with Dataset", "sofar/io.py:121"),
      ("SofaStream.__exit__", "sofar/sofastream.py:73")], [],
     ["open file descriptors", "directory content"])

prop("C30", "Behaviour depends on the content, not on the history",
     "Two objects with the same entries and custom entries behave the same, "
     "however they came about: editing in any order, undoing edits, earlier "
     "failed or successful verifications, copies or a trip to disk do not "
     "influence the outcome of verification, the reported dimensions, the "
     "inspection report or the saved file.",
     ["histories"],
     "all operation sequences up to a depth, states merged by content; the "
     "object at the end of every sequence is compared with a freshly built "
     "one of the same content",
     NOSUB + "each of them starts from a fresh object.",
     ["sofar/sofa.py", "sofar/io.py"],
     [("_reset_convention", "sofar/sofa.py:1619"),
      ("verify", "sofar/sofa.py:884")],
     [("_api/_dimensions/_convention", "cached state",
       "sofar/sofa.py:1166")],
     ["verify", "get_dimension", "written file"])

prop("C32", "Failures are reported and leave no trace",
     "If anything the package relies on (netCDF library, operating system, "
     "reader of the conventions) fails inside a public operation, the "
     "operation reports an error or completes exactly as without the "
     "failure. The object, its protection and the files that are read are as "
     "before or as after the successful operation, and repeating the "
     "operation and all later operations behave as if nothing had failed.",
     ["fault_sequences", "inputs"],
     "every call that leaves the package in every public operation x kinds "
     "of failure (system error, missing file, library error, exhausted "
     "memory, interruption) x objects (valid, incomplete, invalid, outdated) "
     "x existing or new target files",
     NOSUB + "no test makes anything fail.",
     ["sofar/io.py", "sofar/sofa.py", "sofar/sofastream.py",
      "sofar/utils.py"],
     [("upgrade_convention", "sofar/sofa.py:743"),
      ("_reset_convention", "sofar/sofa.py:1619"),
      ("_write_sofa", "sofar/io.py:259")],
     [("_protected", "protection flag", "sofar/sofa.py:88")],
     ["exceptions", "entries and protection", "files"])

prop("C33", "Threads do not disturb each other",
     "Operations on different objects and files may run in different "
     "threads. However the threads are scheduled, each operation returns, "
     "prints, warns, raises and writes what it does when it runs alone, and "
     "the objects behave the same afterwards.",
     ["schedules"],
     "all schedules of two threads that switch at the lines of the package "
     "(one and two preemptions) x pairs of operations on different objects "
     "(of equal and different conventions) and files",
     NOSUB + "no test uses threads, and a test can not choose the schedule.",
     ["sofar/sofa.py", "sofar/io.py", "sofar/utils.py"],
     [("_load_convention", "sofar/sofa.py:1729"),
      ("_get_conventions", "sofar/utils.py:64"),
      ("_verification_rules", "sofar/sofa.py:1652")],
     [("class attributes", "protection flag", "sofar/sofa.py:88")],
     ["results of operations", "files"])

prop("C34", "Results do not depend on the environment",
     "All operations (on objects, files and conventions, including their "
     "messages and errors) give the same results regardless of the folder "
     "of installation, the current folder (also one that does not exist any "
     "more or that contains folders named like those of the package), "
     "locale, hash seed, optimisation (python -O, -OO), error settings and "
     "print options of numpy, a missing console, time zone and garbage "
     "collection.",
     ["configurations"],
     "all combinations of process settings; settings inside the process; a "
     "scenario of all operations, data of all kinds, refused calls, and "
     "updates in each of them",
     NOSUB + "tests run in one environment.",
     ["sofar/sofa.py", "sofar/io.py", "sofar/utils.py",
      "sofar/update_conventions.py", "sofar/sofastream.py"],
     [("_get_conventions", "sofar/utils.py:64"),
      ("inspect", "sofar/sofa.py:420"),
      ("equals", "sofar/utils.py:130"),
      ("_compile_conventions", "sofar/update_conventions.py:215")],
     [("class attributes", "protection flag", "sofar/sofa.py:88")],
     ["results of operations", "files"])

prop("C35", "Published conventions are compared faithfully",
     "The comparison of the conventions on sofaconventions.org and in the "
     "SOFA toolbox (_check_congruency) reports exactly the conventions that "
     "are missing on one of the platforms or differ in more than line ends "
     "and a trailing tab (General and GeneralString are left out), prints "
     "nothing if there are none, and saves exactly the differing files to "
     "one folder per platform. A failed download is an error and never "
     "reported as a difference; a missing folder and empty lists are "
     "refused.",
     ["inputs", "faults"],
     "all combinations of states of three to five conventions on both "
     "platforms x orders of the lists; each request failing in each way",
     NOSUB + "the only test needs the network and checks nothing.",
     ["sofar/update_conventions.py"],
     [("_check_congruency", "sofar/update_conventions.py:386")],
     [("reported text", "report of differences", "sofar/update_conventions.py:442")],
     ["printed report", "saved files", "exceptions"])

prop("C36", "Operations affect only what they are asked to",
     "No operation of the package, whether it succeeds, is refused, is "
     "cancelled or fails at any point, changes settings of the process "
     "(current folder, environment, umask, warning filters, error and print "
     "settings and random states of numpy and Python, locale, signal "
     "handlers, import paths, standard streams, time-outs, logging, garbage "
     "collection, functions of other packages), other objects, or files and "
     "folders other than those it was asked to write; new files have the "
     "permissions of the umask, nothing is left in the folder for temporary "
     "files, no other program is started and nothing but updating and "
     "comparing the conventions uses the network.",
     ["inputs", "faults", "histories"],
     "all operations, all ordered pairs of operations, and each external "
     "call of each operation failing, in three sets of process settings",
     NOSUB + "tests look at results only.",
     ["sofar/sofa.py", "sofar/io.py", "sofar/utils.py",
      "sofar/update_conventions.py", "sofar/sofastream.py"],
     [("write_sofa", "sofar/io.py:226"), ("inspect", "sofar/sofa.py:420"),
      ("_read_netcdf", "sofar/io.py:112"),
      ("update_conventions", "sofar/update_conventions.py:17")],
     [], ["process settings", "files", "network requests"])

prop("C37", "The documentation of the conventions is complete and true",
     "For every installation of conventions and rules, in whatever folder and "
     "with whatever locale, the script that documents the conventions "
     "describes exactly the installed conventions: each has one entry in the "
     "table of contents and one section with a unique label, is called "
     "deprecated if and only if it is installed as deprecated, deprecated "
     "conventions name what to use instead according to the upgrade rules or, "
     "without them, the deprecations, and the table of each convention gives "
     "name, type, default, dimensions, flags and comment of every entry in "
     "the order of the convention.",
     ["inputs"],
     "all combinations of conventions that are current, deprecated or absent "
     "x rules, all kinds of rows, folders and locales",
     "The script is not run by any test.",
     ["docs/resources/conventions.py", "sofar/utils.py"],
     [("table of contents", "docs/resources/conventions.py:62"),
      ("sections", "docs/resources/conventions.py:77"),
      ("_get_conventions", "sofar/utils.py:90")],
     [], ["text of the documentation"])

TEXTS = {  # anchors that are not functions
    "table of contents": "for path, name_version in zip(",
    "sections": "for path, name_version in zip(",
    "reported text": "report = \"\"",
    "class level defaults": "_protected = False",
    "protection flag": "_protected = False",
    "class level list": "_read_only_attr = ",
    "read only names": "_read_only_attr = ",
    "custom entries": "self._custom[key] = {",
    "dimension sizes": "self._dimensions = {}",
    "dimensions and sizes used for writing": "self._dimensions = {}",
    "cached state": "self._api = {}",
    "last item returned": "self._data = ",
    "download to temporary folder": "TemporaryDirectory() as temp",
    "with Dataset": "with Dataset(",
    "with_suffix in read": "suffix", "with_suffix in write": "suffix",
    "installation of downloaded conventions": "for convention in update:",
    "_write_sofa verifies before opening": "sofa.verify(",
    "write check for latest": "latest",
}


def locate(label, where):
    """Current line of a function or text (unchanged if it is not found)."""
    path, line = where.rsplit(":", 1)
    with open(os.path.join("/repo", path)) as f:
        text = f.read()
    lines = text.split("\n")
    for word in re.findall(r"\w+", label)[::-1]:
        for i, t in enumerate(lines):
            if re.match(r"\s*def %s\(" % re.escape(word), t):
                return "%s:%d" % (path, i + 1)
    for name, pattern in TEXTS.items():
        if label == name:
            near = [i + 1 for i, t in enumerate(lines) if pattern in t]
            if near:
                return "%s:%d" % (path, min(
                    near, key=lambda n: abs(n - int(line))))
    print("not located:", label, where)
    return where


if __name__ == "__main__":
    for p in P:
        for m in p["anchors"]["mechanism"]:
            m["where"] = locate(m["name"], m["where"])
        for m in p["anchors"]["state"]:
            m["where"] = locate(m["meaning"], m["where"]) \
                if m["meaning"] in TEXTS else locate(m["name"], m["where"])
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..",
                       "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
