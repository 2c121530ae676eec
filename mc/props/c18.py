"""C18 units: all unit texts of a grammar (words x number of units x separator
x letter case) for every required unit, in read and write mode, on several
alias tables (separate installations); compared with a table look-up."""
import itertools
import os

from .. import fixture, model, ref
from ..engine import call

PROPERTY = "C18"
TECHNIQUE = ("exhaustive enumeration of a unit grammar x alias tables x "
             "modes, real verification against table look-up")

WORDS = ["degree", "degrees", "deg", "metre", "m", "meter", "inch", "hz",
         "Degree", "METRE", "", "degre"]
SEPS = [",", ", ", " "]
# entries with a required unit: (convention, entry, preparation)
SINGLE = [
    ["SimpleFreeFieldHRIR", "1.0", "ListenerPosition_Units", []],
    ["SimpleFreeFieldHRIR", "1.0", "Data_SamplingRate_Units", []],
    ["GeneralTF", "2.0", "N_Units", []],
]
CASES = ["lower", "upper", "title", "last"]
# alias tables (the unit of the rules stays the same)
TABLES = [
    {"metre": "metre", "degree": "degree", "hertz": "hertz"},
    {"metre": "metre", "degree": "degree", "hertz": "hertz",
     "light year": "metre", "arc minute": "degree"},
    {"metre": "metre", "metres": "metre", "degree": "degree",
     "kelvin": "kelvin", "hertz": "hertz", "per second": "hertz"},
]


def spell(text, how):
    if how == "upper":
        return text.upper()
    if how == "title":
        return text.title()
    if how == "last":
        return text[:-1] + text[-1:].upper()
    return text


def triple_words(tier):
    return WORDS if tier == "thorough" else [
        "degree", "deg", "metre", "m", "inch", "Degree", "", "degrees"]


def BOUNDS(tier):
    return {"words": WORDS, "separators": SEPS, "units per text": "1..4",
            "letter case": CASES, "alias tables": len(TABLES) + 1}


def cases(tier):
    w = triple_words(tier)
    out = [["triple", a, b] for a in w for b in w]
    out += [["single", i, s] for i in range(len(SINGLE))
            for s in range(len(SEPS))]
    out += [["aliases", a] for a in sorted(fixture.UNIT_ALIASES)]
    out += [["volume", s] for s in CASES]
    out += [["table", i] for i in range(len(TABLES))]
    out += [["file", s] for s in CASES]
    return out


def sf_object(ctx, name, version):
    out = call(ctx.sf.Sofa, name, version=version, verify=False)
    if not out.ok:
        raise out.exc
    return out.value


def assess(ctx, obj, conv, entry, text, aliases=None, custom=None):
    obj.protected = False
    setattr(obj, entry, text)
    for mode in ("write", "read"):
        v = ref.verify(ref.entries(obj), conv, custom or {}, mode,
                       aliases=aliases)
        ctx.step()
        ref.judge(ctx, obj, v, mode, {"entry": entry, "text": text,
                                      "mode": mode})
        ctx.outcome(("%s %s") % (mode, "refused" if v.error(mode)
                                 else "accepted"))
    ctx.state(entry, text, repr(aliases))


def spherical(ctx):
    obj = sf_object(ctx, "SimpleFreeFieldHRIR", "1.0")
    ctx.trace()
    obj.SourcePosition_Type = "spherical"
    obj.SourcePosition_Units = "degree, degree, metre"
    return obj, model.conv_of("SimpleFreeFieldHRIR", "1.0")


def run(case, ctx):
    kind = case[0]
    if kind == "triple":
        _, a, b = case
        obj, conv = spherical(ctx)
        for sep in SEPS:
            # (texts with empty words mix separators: '' is a missing unit)
            for c in triple_words(ctx.tier):
                assess(ctx, obj, conv, "SourcePosition_Units",
                       sep.join((a, b, c)))
            assess(ctx, obj, conv, "SourcePosition_Units", sep.join((a, b)))
            for d in ("metre", ""):
                assess(ctx, obj, conv, "SourcePosition_Units",
                       sep.join((a, b, "metre", d)))
            for how in CASES:
                assess(ctx, obj, conv, "SourcePosition_Units",
                       spell(sep.join((a, b, "metre")), how))
            assess(ctx, obj, conv, "SourcePosition_Units",
                   sep.join((a, b, "metre")) + " ")
            assess(ctx, obj, conv, "SourcePosition_Units",
                   " " + sep.join((a, b, "metre")))
        for sep in (";", "  ", " ,", "/", "\t", ",,", ";"):
            assess(ctx, obj, conv, "SourcePosition_Units",
                   sep.join((a, b, "metre")))
        assess(ctx, obj, conv, "SourcePosition_Units", a)
    elif kind == "single":
        name, version, entry, _ = SINGLE[case[1]]
        sep = SEPS[case[2]]
        obj = sf_object(ctx, name, version)
        ctx.trace()
        conv = model.conv_of(name, version)
        for w in WORDS + sorted(fixture.UNIT_ALIASES) + ["hert", "hertzz",
                                                         " m", "m ", "\u03a9",
                                                         "metre\n"]:
            for how in CASES:
                assess(ctx, obj, conv, entry, spell(w, how))
            for u in ("metre", "hertz", "", "degree"):
                assess(ctx, obj, conv, entry, w + sep + u)
            assess(ctx, obj, conv, entry, sep.join((w, w, w)))
    elif kind == "aliases":
        word = case[1]
        for name, version, entry, _ in SINGLE:
            obj = sf_object(ctx, name, version)
            ctx.trace()
            conv = model.conv_of(name, version)
            for how in CASES:
                assess(ctx, obj, conv, entry, spell(word, how))
        obj, conv = spherical(ctx)
        for pos in range(3):
            for sep in SEPS:
                parts = ["degree", "degree", "metre"]
                parts[pos] = word
                for how in CASES:
                    assess(ctx, obj, conv, "SourcePosition_Units",
                           spell(sep.join(parts), how))
        # a custom entry may have any unit, upper case when reading only
        obj.add_variable("Mine", 1, "double", "I")
        obj.add_attribute("Mine_Units", "u")
        for how in CASES:
            for text in (word, word + " per inch", "\u03a9"):
                assess(ctx, obj, conv, "Mine_Units", spell(text, how), None,
                       {"Mine": ("double", "I"),
                        "Mine_Units": ("attribute", None)})
    elif kind == "volume":
        # single units that contain a blank
        hit = [(n, v) for (n, v, _) in fixture.SPEC if any(
            k in model.conv_of(n, v) for k in ("RoomVolume_Units",
                                               "RoomTemperature_Units"))]
        for name, version in hit[:3]:
            obj = sf_object(ctx, name, version)
            ctx.trace()
            conv = model.conv_of(name, version)
            for entry in ("RoomVolume_Units", "RoomTemperature_Units"):
                if entry not in conv:
                    continue
                keep = getattr(obj, entry)
                for a in ("cubic", "Cubic", "", "square", "kelvin"):
                    for b in ("metre", "meters", "m", "inch", "", "kelvin"):
                        for sep in SEPS + ["  "]:
                            assess(ctx, obj, conv, entry,
                                   spell(a + sep + b, case[1]))
                for w in sorted(fixture.UNIT_ALIASES):
                    assess(ctx, obj, conv, entry, spell(w, case[1]))
                setattr(obj, entry, keep)
    elif kind == "table":
        ctx.isolated(table, TABLES[case[1]], aliases=TABLES[case[1]])
    else:
        files(ctx, case[1])
    ctx.sample(case)


def table(ctx, aliases):
    words = sorted(aliases) + ["metre", "deg", "inch"]
    obj, conv = spherical(ctx)
    for w in words:
        for name, version, entry, _ in SINGLE:
            o = sf_object(ctx, name, version)
            for how in CASES:
                assess(ctx, o, model.conv_of(name, version), entry,
                       spell(w, how), aliases)
    for sep in SEPS:
        for a, b, c in itertools.product(words, repeat=3):
            if sep == " " and " " in a + b + c:
                continue        # ambiguous: words contain the separator
            assess(ctx, obj, conv, "SourcePosition_Units",
                   sep.join((a, b, c)), aliases)


def files(ctx, how):
    """Upper case units can be read from but not written to files."""
    import netCDF4
    sf = ctx.sf
    path = os.path.join(ctx.dir, "units.sofa")
    for entry, unit in (("ListenerPosition_Units", "metre"),
                        ("Data_SamplingRate_Units", "hertz"),
                        ("SourcePosition_Units", "degree, degree, metre")):
        for sep in (", ", ",", " "):
            obj, conv = spherical(ctx)
            out = call(sf.write_sofa, path, obj)
            ctx.require(out.ok, "write raised %r" % out.exc)
            text = spell(unit.replace(", ", sep), how)
            setattr(obj, entry, text)
            ctx.step()
            out = call(sf.write_sofa, path, obj)
            ctx.require(out.ok == (text == text.lower()) and (
                out.ok or out.raised(ValueError)),
                "writing %s = %r: %r" % (entry, text, out))
            var, attr = entry.rsplit("_", 1)
            with netCDF4.Dataset(path, "a") as f:
                f[var.replace("Data_", "Data.")].setncattr(attr, text)
            ctx.step()
            out = call(sf.read_sofa, path, verbose=False)
            ctx.require(out.ok and getattr(out.value, entry) == text,
                        "reading %s = %r: %r" % (entry, text, out))
            ctx.state("file", entry, text)
    os.remove(path)
