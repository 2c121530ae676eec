"""C19 names: a name grammar is brought into objects in every way there is
(adding, files written without the package, deleting variables, entries of
other conventions); verification is compared with the naming rules."""
import itertools
import os

from .. import fixture, model, nc, ref
from ..engine import call
from . import c03

PROPERTY = "C19"
TECHNIQUE = ("exhaustive enumeration of entry names x ways of introduction, "
             "real verification against independent naming rules")

STEMS = ["New", "PRIVATE", "PRIVATEs", "Private", "private", "aPRIVATE",
         "API", "APIs", "Api", "anAPI", "GLOBAL", "GLOBALs", "Global",
         "aGLOBAL", "Data", "Datas", "Dat", "New2", "new-er", "x", "S", "M",
         "Title", "APIName", "DataType", "Version", "Units", "Type",
         "SourcePosition2", "Source", "IR", "PRIVAT", "AP", "GLOBA"]
ATTRS = ["New", "PRIVATE", "API", "APIx", "GLOBAL", "Data", "Note2", "x-y"]
FILE_VARS = ["A_B", "A_B_C", "Data.New", "Data_New", "Data.New.More",
             "Data.New_More", "DataNew_More", "A__B", "A_", "New",
             "PRIVATE_A", "API_A", "GLOBAL_A", "New.A", "SourcePosition_A",
             "Data.PRIVATE", "Data.API", "GLOBAL.A", "PRIVATEx", "APIx",
             "GLOBALx", "Data"]
FILE_ATTRS = ["a", "a_b", "Units_New", "PRIVATE", "API", "GLOBAL", "a-b"]
GLOBAL_ATTRS = ["a", "a_b", "PRIVATE", "APIx", "GLOBAL", "GLOBAL_a",
                "SourcePosition", "SourcePosition_Units", "Data_IR",
                "Title2", "_a_b"]
CONVS = [["GeneralFIR", "1.0"], ["SimpleFreeFieldHRIR", "1.0"],
         ["GeneralTF", "2.0"], ["SimpleHeadphoneIR", "1.0"]]


def BOUNDS(tier):
    return {"stems": STEMS, "attributes": ATTRS, "variables in files":
            FILE_VARS, "attributes in files": FILE_ATTRS,
            "global attributes in files": GLOBAL_ATTRS,
            "conventions": len(CONVS) if tier != "thorough"
            else len(fixture.SPEC), "orphans": "each variable, each subset "
            "of its attributes", "normative names": "each entry of each "
            "convention with and without GLOBAL_"}


def cases(tier):
    convs = CONVS if tier != "thorough" else [
        [n, v] for (n, v, _) in fixture.SPEC]
    out = [["add", c, s] for c in convs for s in STEMS]
    out += [["two", a, b] for a in STEMS for b in STEMS]
    out += [["file", v] for v in FILE_VARS]
    out += [["global", g] for g in GLOBAL_ATTRS]
    every = [[n, v] for (n, v, _) in fixture.SPEC]
    out += [["orphan", c] for c in every]
    out += [["normative", c] for c in every]
    return out


def assess(ctx, obj, conv, custom, info):
    for mode in ("write", "read"):
        v = ref.verify(ref.entries(obj), conv, custom, mode)
        ctx.step()
        ref.judge(ctx, obj, v, mode, info)
        ctx.outcome("names refused" if v.names else "names accepted")
    ctx.state(repr(info))
    return v


def new(ctx, c):
    out = call(ctx.sf.Sofa, c[0], version=c[1], verify=False)
    if not out.ok:
        raise out.exc
    ctx.trace()
    return out.value, model.conv_of(*c)


def run(case, ctx):
    kind = case[0]
    if kind == "add":
        _, c, stem = case
        for typ, val, dims in (("double", 1.0, "I"), ("string", "t", "IS")):
            obj, conv = new(ctx, c)
            custom = {}
            if call(obj.add_variable, stem, val, typ, dims).ok:
                if stem not in conv:
                    custom[stem] = (typ, dims)
                assess(ctx, obj, conv, custom, {"object": c, "name": stem,
                                                "type": typ})
                for a in ATTRS:
                    k = stem + "_" + a
                    out = call(obj.add_attribute, k, "text")
                    if out.ok:
                        custom[k] = ("attribute", None)
                        assess(ctx, obj, conv, custom, {
                            "object": c, "name": k, "type": typ})
                        obj.delete(k)
                        custom.pop(k)
                # the variable goes, its attribute stays
                for a in ATTRS[:2]:
                    k = stem + "_" + a
                    if call(obj.add_attribute, k, "text").ok:
                        custom[k] = ("attribute", None)
                gone = call(obj.delete, stem)
                if gone.ok:
                    custom.pop(stem, None)
                    assess(ctx, obj, conv, custom, {
                        "object": c, "deleted": stem})
        obj, conv = new(ctx, c)
        if call(obj.add_attribute, "GLOBAL_" + stem, "t").ok:
            custom = {"GLOBAL_" + stem: ("attribute", None)}
            assess(ctx, obj, conv, custom, {"object": c,
                                            "name": "GLOBAL_" + stem})
    elif kind == "two":
        _, a, b = case
        obj, conv = new(ctx, CONVS[0])
        custom = {}
        for s in (a, b):
            if call(obj.add_variable, s, 1, "double", "I").ok:
                custom[s] = ("double", "I")
            if call(obj.add_attribute, s + "_" + b, "t").ok:
                custom[s + "_" + b] = ("attribute", None)
        assess(ctx, obj, conv, custom, {"names": [a, b]})
    elif kind in ("file", "global"):
        for typ in ("f8", "S1") if kind == "file" else ("f8",):
            for attr in [None] + (FILE_ATTRS if kind == "file" else [case[1]]):
                files(ctx, case, typ, attr)
    elif kind == "orphan":
        c = case[1]
        conv = model.conv_of(*c)
        for var in [k for k in conv if "_" not in k.replace("Data_", "")]:
            attrs = [k for k in conv if k.startswith(var + "_")]
            for n in range(len(attrs) + 1):
                for gone in itertools.combinations(attrs, n):
                    for drop in (False, True):
                        obj, _ = new(ctx, c)
                        obj.protected = False
                        extra = var + "_Extra"
                        added = call(obj.add_attribute, extra, "t").ok
                        obj.protected = False
                        for k in gone + ((var,) if drop else ()):
                            obj.delete(k)
                        info = {"object": c, "deleted": list(gone) + (
                            [var] if drop else [])}
                        if added:
                            assess(ctx, obj, conv,
                                   {extra: ("attribute", None)}, info)
                            obj.delete(extra)
                        assess(ctx, obj, conv, {}, dict(info, extra=False))
    else:
        c = case[1]
        conv = model.conv_of(*c)
        # names of this convention, with and without GLOBAL_
        for k in conv:
            other = k[7:] if k.startswith("GLOBAL_") else "GLOBAL_" + k
            obj, _ = new(ctx, c)
            custom = {}
            if other.startswith("GLOBAL_"):
                if call(obj.add_attribute, other, "t").ok:
                    custom[other] = ("attribute", None)
            else:
                if call(obj.add_variable, other, "t", "string", "IS").ok:
                    custom[other] = ("string", "IS")
            assess(ctx, obj, conv, custom, {"object": c, "name": other})
        # deleted entries can be added again
        for k, s in conv.items():
            if ref.mandatory(s) or any(x.startswith(k + "_") for x in conv):
                continue
            obj, _ = new(ctx, c)
            val = getattr(obj, k)
            obj.delete(k)
            out = call(obj.add_variable, k, val, s["type"],
                       None if s["dimensions"] is None
                       else s["dimensions"].split(", ")[0])
            if out.ok:
                assess(ctx, obj, conv, {}, {"object": c, "again": k})
        # names that only belong to other conventions
        names = sorted({k for (n, v, _) in fixture.SPEC
                        for k in model.conv_of(n, v)} - set(conv))
        for k in names:
            s = next(model.conv_of(n, v)[k] for (n, v, _) in fixture.SPEC
                     if k in model.conv_of(n, v))
            obj, _ = new(ctx, c)
            out = call(obj.add_variable, k, "t" if s["type"] == "attribute"
                       else 1, "attribute" if s["type"] == "attribute"
                       else "double", None if s["type"] == "attribute"
                       else "I")
            if out.ok:
                assess(ctx, obj, conv, {k: (
                    "attribute", None) if s["type"] == "attribute"
                    else ("double", "I")}, {"object": c, "foreign": k})
    ctx.sample(case)


def files(ctx, case, typ, attr):
    sf = ctx.sf
    spec = {"conv": ["GeneralFIR", "1.0"]}
    name = case[1]
    if case[0] == "file":
        spec["extra"] = [[name, typ, "MS" if typ == "S1" else "M",
                          "text" if typ == "S1" else 3.0]]
        if attr is not None:
            spec["extra_attrs"] = [[name + "_" + attr, "t"]]
    elif attr is not None:
        spec["extra_attrs"] = [["GLOBAL_" + attr, "t"]]
    attrs, dims, items = c03.build(spec)
    path = os.path.join(ctx.dir, "names.sofa")
    nc.write(path, attrs, dims, items)
    conv = model.conv_of("GeneralFIR", "1.0")
    ctx.trace()
    out = call(sf.read_sofa, path, verify=False, verbose=False)
    info = {"file": [name, typ, attr]}
    ctx.require(out.ok, "read raised %r" % out.exc, **info)
    obj = out.value
    custom = {}
    for k in ref.entries(obj):
        if k not in conv:
            if case[0] == "file" and k == name.replace(".", "_"):
                custom[k] = ("string", "MS") if typ == "S1" \
                    else ("double", "M")
            else:
                custom[k] = ("attribute", None)
    v = assess(ctx, obj, conv, custom, info)
    ctx.step()
    again = call(sf.read_sofa, path, verify=True, verbose=False)
    ctx.require(again.ok == (not v.error("read")) and (
        again.ok or again.raised(ValueError)),
        "reading with verification: %r, expected %s" % (
            again, sorted(v.names)), **info)
    os.remove(path)
