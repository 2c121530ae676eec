"""Synthetic SOFA conventions, rules and VERSION file used by all checks.

The repository ships without its `sofa_conventions` submodule, so every check
runs the code of /repo against this fixture.  The fixture imitates the layout
and the vocabulary of the public SOFA conventions (AES69-2022) closely enough
for sofar's own test suite to run against it, but it is our own data.

`SPEC` is the single source: the csv text (input of the csv->json compiler) and
the expected json content are both *generated* from it, without using any code
of the repository.
"""
import json
import os

# --------------------------------------------------------------------------
# building blocks: (name, default, flags, dimensions, type, comment)
SOS1 = "permute([0 0 0 1 0 0; 0 0 0 1 0 0], [3 1 2]);"
SOS2 = "permute([0 0 0 1 0 0], [3 1 2]);"
EMPTYSTR = "{''}"


def _globals(name, version, dtype, sofa_version="2.1", room="free field",
             extra=()):
    rows = [
        ("GLOBAL:Conventions", "SOFA", "rm", None, "attribute", ""),
        ("GLOBAL:Version", sofa_version, "rm", None, "attribute",
         "Version of the SOFA format"),
        ("GLOBAL:SOFAConventions", name, "rm", None, "attribute",
         "This convention is made up for %s" % name),
        ("GLOBAL:SOFAConventionsVersion", version, "rm", None, "attribute",
         ""),
        ("GLOBAL:APIName", "", "rm", None, "attribute", ""),
        ("GLOBAL:APIVersion", "", "rm", None, "attribute", ""),
        ("GLOBAL:ApplicationName", "", None, None, "attribute", ""),
        ("GLOBAL:ApplicationVersion", "", None, None, "attribute", ""),
        ("GLOBAL:AuthorContact", "", "m", None, "attribute", ""),
        ("GLOBAL:Comment", "", None, None, "attribute", ""),
        ("GLOBAL:DataType", dtype, "rm", None, "attribute",
         "We store %s data here" % dtype),
        ("GLOBAL:History", "", None, None, "attribute", ""),
        ("GLOBAL:License",
         "No license provided, ask the author for permission", "m", None,
         "attribute", ""),
        ("GLOBAL:Organization", "", "m", None, "attribute", ""),
        ("GLOBAL:References", "", None, None, "attribute", ""),
        ("GLOBAL:RoomType", room, "m", None, "attribute",
         "The room type can be arbitrary"),
        ("GLOBAL:Origin", "", None, None, "attribute", ""),
        ("GLOBAL:DateCreated", "", "m", None, "attribute", ""),
        ("GLOBAL:DateModified", "", "m", None, "attribute", ""),
        ("GLOBAL:Title", "", "m", None, "attribute", ""),
    ]
    return rows + list(extra)


def _pos(name, default, dims, typ="cartesian", flags="m"):
    units = {"cartesian": "metre", "spherical": "degree, degree, metre",
             "spherical harmonics": "degree, degree, metre"}[typ]
    return [
        (name, default, flags, dims, "double", ""),
        (name + ":Type", typ, flags, None, "attribute", ""),
        (name + ":Units", units, flags, None, "attribute", ""),
    ]


def _view(name, flags=None, dims="IC, MC"):
    return [
        (name + "View", [[1, 0, 0]], flags, dims, "double", ""),
        (name + "View:Type", "cartesian", flags, None, "attribute", ""),
        (name + "View:Units", "metre", flags, None, "attribute", ""),
        (name + "Up", [[0, 0, 1]], flags, dims, "double", ""),
    ]


EAR = [[0, 0.09, 0], [0, -0.09, 0]]


def _geometry(receivers=EAR, source="spherical", emitters=[[0, 0, 0]]):
    return (
        _pos("ListenerPosition", [[0, 0, 0]], "IC, MC")
        + _pos("ReceiverPosition", receivers, "rCI, rCM")
        + _pos("SourcePosition",
               [[0, 0, 1]] if source == "spherical" else [[1, 0, 0]],
               "IC, MC", source)
        + _pos("EmitterPosition", emitters, "eCI, eCM"))


def _fir(ir=[0, 0], delay=[0, 0], dims="mRn", ddims="IR, MR"):
    return [
        ("Data.IR", ir, "m", dims, "double", ""),
        ("Data.SamplingRate", 48000, "m", "I", "double",
         "Sampling rate of the samples in Data.IR and Data.Delay"),
        ("Data.SamplingRate:Units", "hertz", "m", None, "attribute", ""),
        ("Data.Delay", delay, "m", ddims, "double", ""),
    ]


def _tf(real=[0, 0], imag=[0, 0], dims="mRn"):
    return [
        ("N", 0, "m", "N", "double", "Frequency values"),
        ("N:LongName", "frequency", None, None, "attribute", ""),
        ("N:Units", "hertz", "m", None, "attribute", ""),
        ("Data.Real", real, "m", dims, "double", ""),
        ("Data.Imag", imag, "m", dims, "double", ""),
    ]


def _sos(default, delay):
    return [
        ("Data.SOS", default, "m", "mRn", "double", "Filter coefficients"),
        ("Data.SamplingRate", 48000, "m", "I", "double", ""),
        ("Data.SamplingRate:Units", "hertz", "m", None, "attribute", ""),
        ("Data.Delay", delay, "m", "IR, MR", "double", ""),
    ]


DB = [("GLOBAL:DatabaseName", "", "m", None, "attribute",
       "name of the database"),
      ("GLOBAL:ListenerShortName", "", "m", None, "attribute",
       "ID of the subject")]

# (name, version, deprecated): rows
SPEC = {
    ("SimpleFreeFieldHRIR", "1.0", False):
        _globals("SimpleFreeFieldHRIR", "1.0", "FIR", extra=DB)
        + _geometry() + _view("Listener", "m") + _view("Source")
        + _fir(),
    ("SimpleFreeFieldHRTF", "1.0", False):
        _globals("SimpleFreeFieldHRTF", "1.0", "TF", extra=DB)
        + _geometry() + _view("Listener", "m") + _view("Source") + _tf(),
    ("SimpleFreeFieldHRSOS", "1.0", False):
        _globals("SimpleFreeFieldHRSOS", "1.0", "SOS", extra=DB)
        + _geometry() + _view("Listener", "m") + _sos(SOS1, [0, 0]),
    ("GeneralSOS", "1.0", False):
        _globals("GeneralSOS", "1.0", "SOS")
        + _geometry([[0, 0, 0]]) + _sos(SOS2, [0]),
    ("GeneralTF", "1.0", False):
        _globals("GeneralTF", "1.0", "TF", "1.0")
        + _geometry([[0, 0, 0]]) + _tf([0], [0]),
    ("GeneralTF", "2.0", False):
        _globals("GeneralTF", "2.0", "TF")
        + _geometry([[0, 0, 0]], "cartesian") + _tf([0], [0])
        + [("Data.Real:Units", "", None, None, "attribute", "")][:0],
    ("GeneralFIR", "1.0", False):
        _globals("GeneralFIR", "1.0", "FIR")
        + _geometry([[0, 0, 0]]) + _fir([0], [0]),
    ("GeneralFIR-E", "2.0", False):
        _globals("GeneralFIR-E", "2.0", "FIR-E")
        + _geometry([[0, 0, 0]])
        + _fir([0], [0], "mRnE", "IRI, MRI, IRE, MRE"),
    ("SimpleHeadphoneIR", "1.0", False):
        _globals("SimpleHeadphoneIR", "1.0", "FIR", extra=DB + [
            ("GLOBAL:ListenerDescription", "", None, None, "attribute", ""),
            ("GLOBAL:SourceDescription", "", "m", None, "attribute", ""),
            ("GLOBAL:EmitterDescription", "", "m", None, "attribute", "")])
        + _pos("ListenerPosition", [[0, 0, 0]], "IC, MC")
        + _pos("ReceiverPosition", EAR, "rCI, rCM")
        + _pos("SourcePosition", [[0, 0, 0]], "IC, MC", "spherical")
        + _pos("EmitterPosition", EAR, "eCI, eCM")
        + [("SourceManufacturer", EMPTYSTR, None, "MS", "string",
            "Name of the manufacturer"),
           ("SourceModel", EMPTYSTR, None, "MS", "string", ""),
           ("ReceiverDescriptions", EMPTYSTR, None, "MS", "string", ""),
           ("EmitterDescriptions", EMPTYSTR, None, "MS", "string", ""),
           ("MeasurementDate", 0, None, "M", "double", "")]
        + _fir(),
    ("FreeFieldHRIR", "1.0", False):
        _globals("FreeFieldHRIR", "1.0", "FIR-E", extra=DB)
        + _pos("ListenerPosition", [[0, 0, 0]], "IC, MC")
        + _pos("ReceiverPosition", EAR, "rCI, rCM")
        + _pos("SourcePosition", [[0, 0, 0]], "IC, MC", "spherical")
        + _pos("EmitterPosition", [[0, 0, 1]], "eCI, eCM",
               "spherical harmonics")
        + _fir([0, 0], [0, 0], "mRnE", "IRI, MRI, IRE, MRE"),
    ("FreeFieldDirectivityTF", "1.1", False):
        _globals("FreeFieldDirectivityTF", "1.1", "TF", extra=[
            ("GLOBAL:EmitterDescription", "", "m", None, "attribute", ""),
            ("GLOBAL:Musician", "", None, None, "attribute", "")])
        + _geometry([[0, 0, 1]])
        + [("EmitterDescriptions", EMPTYSTR, None, "MS", "string", "")]
        + _tf([0], [0]),
    ("SingleRoomMIMOSRIR", "1.0", False):
        _globals("SingleRoomMIMOSRIR", "1.0", "FIR-E", room="reverberant",
                 extra=DB + [("GLOBAL:RoomDescription", "", "m", None,
                              "attribute", "")])
        + _geometry([[0, 0, 0]])
        + _fir([0], [0], "mRnE", "IRI, MRI, IRE, MRE"),
    ("SingleRoomDRIR", "0.3", False):
        _globals("SingleRoomDRIR", "0.3", "FIR", "1.0", "reverberant",
                 DB + [("GLOBAL:RoomDescription", "", "m", None,
                        "attribute", "")])
        + _geometry() + _fir(),
    # deprecated -----------------------------------------------------------
    ("SimpleFreeFieldHRIR", "0.4", True):
        _globals("SimpleFreeFieldHRIR", "0.4", "FIR", "0.6", extra=DB)
        + _geometry() + _view("Listener", "m") + _fir(),
    ("SimpleFreeFieldTF", "0.4", True):
        _globals("SimpleFreeFieldTF", "0.4", "TF", "0.6", extra=DB)
        + _geometry() + _tf(),
    ("SimpleFreeFieldTF", "1.0", True):
        _globals("SimpleFreeFieldTF", "1.0", "TF", "1.0", extra=DB)
        + _geometry() + _view("Listener", "m") + _tf(),
    ("FreeFieldDirectivityTF", "1.0", True):
        _globals("FreeFieldDirectivityTF", "1.0", "TF", "2.0", extra=[
            ("GLOBAL:Musician", "", None, None, "attribute", "")])
        + _geometry([[0, 0, 1]])
        + [("EmitterMidiNote", 0, None, "IM, MI, I", "double", "")][:0]
        + [("EmitterDescription", EMPTYSTR, None, "MS", "string", "")]
        + _tf([0], [0]),
    ("MultiSpeakerBRIR", "0.3", True):
        _globals("MultiSpeakerBRIR", "0.3", "FIRE", "1.0", "reverberant",
                 DB + [("GLOBAL:RoomDescription", "", None, None,
                        "attribute", "")])
        + _geometry()
        + _fir([0, 0], [0, 0], "mREn", "IRI, MRI, IRE, MRE")
        + [("SpeakerLabel", EMPTYSTR, None, "MS", "string", "")],
    ("OldTracker", "1.0", True):
        _globals("OldTracker", "1.0", "FIR", "1.0")
        + _geometry([[0, 0, 0]]) + _fir([0], [0]),
}


# optional entries that are read only
for _key in (("SimpleHeadphoneIR", "1.0", False), ("GeneralTF", "2.0", False),
             ("OldTracker", "1.0", True)):
    SPEC[_key] = [r[:2] + ("r",) + r[3:] if r[0] == "GLOBAL:Origin" else r
                  for r in SPEC[_key]]


# --------------------------------------------------------------------------
# csv and json text generated from the spec
HEADER = "Name\tDefault\tFlags\tDimensions\tType\tComment"


def num(value):
    return repr(value)


def csv_cell(value):
    """Write a default value the way the official csv files do."""
    if value is None:
        return ""
    if isinstance(value, str):
        return value
    if isinstance(value, (int, float)):
        return num(value)
    if isinstance(value[0], list):
        return "[" + "; ".join(
            " ".join(num(v) for v in row) for row in value) + "]"
    return "[" + " ".join(num(v) for v in value) + "]"


def csv_text(rows):
    lines = [HEADER]
    for row in rows:
        lines.append("\t".join(csv_cell(c) for c in row))
    return "\n".join(lines) + "\n"


def json_default(value, name):
    if value == SOS1:
        return [[[0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 0, 0]]]
    if value == SOS2:
        return [[[0, 0, 0, 1, 0, 0]]]
    if value == EMPTYSTR:
        return [""]
    if isinstance(value, list) and isinstance(value[0], list) \
            and len(value) == 1:
        # '[0 0 1]' is a flat list in csv
        return value[0]
    return value


def json_dict(rows):
    """Expected json content (also the order of the entries)."""
    out = {}
    glob = [r for r in rows if "GLOBAL" in r[0]]
    rest = [r for r in rows if "GLOBAL" not in r[0]
            and not r[0].startswith("Data")]
    data = [r for r in rows if r[0].startswith("Data")]
    for name, default, flags, dims, typ, comment in glob + rest + data:
        out[name] = {
            "default": json_default(default, name), "flags": flags,
            "dimensions": dims, "type": typ, "comment": comment}
    return out


# --------------------------------------------------------------------------
# verification rules
def _coord(values, units=True):
    spec = {}
    for v in values:
        u = "metre" if v == "cartesian" else "degree, degree, metre"
        spec[v] = {"%s": [u]}
    return spec


def build_rules():
    rules = {}
    rules["GLOBAL:Conventions"] = {"value": ["SOFA"]}
    rules["GLOBAL:DataType"] = {
        "value": ["FIR", "FIR-E", "FIRE", "TF", "TF-E", "SOS"],
        "specific": {
            "FIR": {"Data.IR": None, "Data.Delay": None,
                    "Data.SamplingRate": None,
                    "Data.SamplingRate:Units": ["hertz"]},
            "FIR-E": {"Data.IR": None, "Data.Delay": None,
                      "Data.SamplingRate": None,
                      "Data.SamplingRate:Units": ["hertz"]},
            "TF": {"Data.Real": None, "Data.Imag": None, "N": None,
                   "N:Units": ["hertz"]},
            "SOS": {"Data.SOS": None, "Data.Delay": None,
                    "Data.SamplingRate": None,
                    "Data.SamplingRate:Units": ["hertz"],
                    "_dimensions": {"N": {
                        "value": list(range(6, 601, 6)),
                        "value_str":
                            "an integer multiple of 6 greater 0"}}},
        }}
    rules["GLOBAL:RoomType"] = {
        "value": ["free field", "reverberant", "shoebox", "dae"],
        "specific": {
            "reverberant": {"GLOBAL:RoomDescription": None},
            "shoebox": {"RoomCornerA": None, "RoomCornerB": None},
            "dae": {"GLOBAL:RoomGeometry": None}}}
    rules["GLOBAL:SOFAConventions"] = {
        "value": None,
        "specific": {
            "SimpleFreeFieldHRIR": {
                "GLOBAL:DataType": ["FIR"],
                "GLOBAL:RoomType": ["free field"],
                "_dimensions": {"E": {"value": [1], "value_str": "1"}}},
            "SimpleFreeFieldHRTF": {
                "GLOBAL:DataType": ["TF"],
                "_dimensions": {"E": {"value": [1], "value_str": "1"}}},
            "SimpleHeadphoneIR": {
                "GLOBAL:DataType": ["FIR"]},
            "FreeFieldHRIR": {
                "GLOBAL:DataType": ["FIR-E"],
                "EmitterPosition:Type": ["spherical harmonics"]}}}
    square = {"value": [n * n for n in range(1, 60)],
              "value_str": "(N+1)^2 where N is the spherical harmonics order"}
    for key in ("ListenerPosition", "ReceiverPosition", "SourcePosition",
                "EmitterPosition", "ListenerView", "ReceiverView",
                "SourceView", "EmitterView", "RoomCorners"):
        rules[key] = {"value": None,
                      "general": [key + ":Type", key + ":Units"]}
        values = ["cartesian", "spherical"]
        specific = {
            "cartesian": {key + ":Units": ["metre"]},
            "spherical": {key + ":Units": ["degree, degree, metre"]}}
        if key in ("ReceiverPosition", "EmitterPosition"):
            values.append("spherical harmonics")
            specific["spherical harmonics"] = {
                key + ":Units": ["degree, degree, metre"],
                "_dimensions": {key[0]: square}}
        rules[key + ":Type"] = {"value": values, "specific": specific}
    for key in ("Listener", "Receiver", "Source", "Emitter"):
        rules[key + "Up"] = {"value": None, "general": [key + "View"]}
    rules["N:Units"] = {"value": ["hertz"]}
    rules["Data.SamplingRate:Units"] = {"value": ["hertz"]}
    rules["RoomTemperature"] = {"value": None,
                                "general": ["RoomTemperature:Units"]}
    rules["RoomTemperature:Units"] = {"value": ["kelvin"]}
    rules["RoomVolume"] = {"value": None, "general": ["RoomVolume:Units"]}
    rules["RoomVolume:Units"] = {"value": ["cubic metre"]}
    rules["RoomCornerA"] = {"value": None,
                            "general": ["RoomCornerB", "RoomCorners"]}
    rules["RoomCornerB"] = {"value": None,
                            "general": ["RoomCornerA", "RoomCorners"]}
    rules["EmitterDescriptions"] = {
        "value": None, "general": ["GLOBAL:EmitterDescription"]}
    return rules


RULES = build_rules()

UNIT_ALIASES = {
    "metre": "metre", "metres": "metre", "meter": "metre",
    "meters": "metre", "m": "metre",
    "cubic metre": "cubic metre", "cubic metres": "cubic metre",
    "cubic meter": "cubic metre", "cubic meters": "cubic metre",
    "degree": "degree", "degrees": "degree", "deg": "degree",
    "second": "second", "seconds": "second",
    "hertz": "hertz", "hz": "hertz",
    "kelvin": "kelvin", "k": "kelvin",
}

DEPRECATIONS = {
    "GLOBAL:SOFAConventions": {
        "SimpleFreeFieldTF": "SimpleFreeFieldHRTF",
        "MultiSpeakerBRIR": "SingleRoomMIMOSRIR",
        "OldTracker": "nothing (no upgrade rules)"}}

UPGRADE = {
    "SimpleFreeFieldTF": {
        "from_to": [[["0.4", "1.0"], ["SimpleFreeFieldHRTF_1.0"],
                     "upgrade_1"]],
        "upgrade_1": {"move": {}, "remove": [], "message": None}},
    "SimpleFreeFieldHRIR": {
        "from_to": [[["0.4"], ["SimpleFreeFieldHRIR_1.0"], "upgrade_1"]],
        "upgrade_1": {
            "move": {}, "remove": [],
            "message": "Consider to add the optional data 'SourceUp' and "
                       "'SourceView'"}},
    "FreeFieldDirectivityTF": {
        "from_to": [[["1.0"], ["FreeFieldDirectivityTF_1.1"], "upgrade_1"]],
        "upgrade_1": {
            "move": {"EmitterDescription": {
                "target": "EmitterDescriptions", "moveaxis": None,
                "deprecated_dimensions": None}},
            "remove": [], "message": None}},
    "MultiSpeakerBRIR": {
        "from_to": [[["0.3"], ["SingleRoomMIMOSRIR_1.0"], "upgrade_1"]],
        "upgrade_1": {
            "move": {
                "Data.IR": {"target": "Data.IR", "moveaxis": [2, 3],
                            "deprecated_dimensions": None},
                "Data.Delay": {"target": "Data.Delay", "moveaxis": None,
                               "deprecated_dimensions": ["IR", "MR"]}},
            "remove": ["SpeakerLabel"],
            "message": None}},
}


def write_tree(root, spec=None, rules=None, aliases=None, deprecations=None,
               upgrade=None, version="2.1", csv=True):
    """Write a `sofa_conventions` folder below `root`."""
    spec = SPEC if spec is None else spec
    conv = os.path.join(root, "conventions")
    os.makedirs(os.path.join(conv, "deprecated"))
    os.makedirs(os.path.join(root, "rules"))
    with open(os.path.join(root, "VERSION"), "w") as f:
        f.write(version + "\n")
    for (name, ver, deprecated), rows in spec.items():
        base = os.path.join(conv, "deprecated") if deprecated else conv
        base = os.path.join(base, "%s_%s" % (name, ver))
        if csv:
            with open(base + ".csv", "w", encoding="windows-1252",
                      newline="") as f:
                f.write(csv_text(rows))
        with open(base + ".json", "w") as f:
            json.dump(json_dict(rows), f, indent=4)
    for fname, data in (
            ("rules", RULES if rules is None else rules),
            ("unit_aliases", UNIT_ALIASES if aliases is None else aliases),
            ("deprecations",
             DEPRECATIONS if deprecations is None else deprecations),
            ("upgrade", UPGRADE if upgrade is None else upgrade)):
        with open(os.path.join(root, "rules", fname + ".json"), "w") as f:
            json.dump(data, f, indent=4)
