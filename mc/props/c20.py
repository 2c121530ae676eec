"""C20 outdated conventions: on separate installations with every small set of
versions (named as deprecated or not, in either folder) all ways to create,
verify, save and read data of each version are run and the warnings and
refusals compared with the specification."""
import itertools
import os

import netCDF4

from .. import fixture, ref
from ..engine import call

PROPERTY = "C20"
TECHNIQUE = ("exhaustive enumeration of installed version sets x deprecation "
             "x operations on separate installations of the real package")

VERSIONS = ["0.1", "0.4", "0.9", "1.0", "1.5", "2.0", "9.0", "10.0"]
HANDLING = ("raise", "return", "print", "ignore")


def BOUNDS(tier):
    return {"versions": VERSIONS, "version sets": "all of size 1..%d" % (
        3 if tier == "thorough" else 2), "deprecated": "named or not; in "
        "either folder", "operations": "create x verify x mandatory, verify x "
        "handling x mode twice, copy, change of version, save, read x verify",
        "conventions of the fixture": len(fixture.SPEC)}


def cases(tier):
    out = [["main", n, v] for (n, v, _) in fixture.SPEC]
    for k in range(1, 4 if tier == "thorough" else 3):
        for vs in itertools.combinations(VERSIONS, k):
            for named in (False, True):
                for folder in range(2 if k > 1 else 1):
                    out.append(["iso", list(vs), named, folder])
    return out


def run(case, ctx):
    if case[0] == "main":
        _, n, v = case
        dep = n in fixture.DEPRECATIONS["GLOBAL:SOFAConventions"]
        vs = [w for (m, w, _) in fixture.SPEC if m == n]
        one(ctx, n, v, vs, dep)
        ctx.sample(case)
        return
    _, vs, named, folder = case
    rows = fixture.SPEC[("GeneralFIR", "1.0", False)]
    spec = {("GeneralFIR", "1.0", False): rows}
    for i, v in enumerate(vs):
        spec[("Dated", v, bool((i + folder) % 2))] = table(rows, "Dated", v)
    spec[("DatedLonger", "99.0", False)] = table(rows, "DatedLonger", "99.0")
    spec[("Date", "98.0", False)] = table(rows, "Date", "98.0")
    dep = {"DatedLonger": "Dated", "Date": "Dated"}
    if named:
        dep["Dated"] = "GeneralFIR"
    ctx.isolated(iso, vs, named, spec=spec,
                 deprecations={"GLOBAL:SOFAConventions": dep}, upgrade={})


def table(rows, name, version):
    out = []
    for r in rows:
        if r[0] == "GLOBAL:SOFAConventions":
            r = (r[0], name) + r[2:]
        if r[0] == "GLOBAL:SOFAConventionsVersion":
            r = (r[0], version) + r[2:]
        out.append(r)
    return out


def iso(ctx, vs, named):
    for v in vs:
        one(ctx, "Dated", v, vs, named)
    # the version entry decides, not the version used for creation
    for v, w in itertools.permutations(vs, 2):
        obj = call(ctx.sf.Sofa, "Dated", version=v, verify=False).value
        obj.protected = False
        obj.GLOBAL_SOFAConventionsVersion = w
        obj.protected = True
        ctx.trace()
        verifies(ctx, obj, float(w) < 1, named,
                 {"created": v, "changed to": w, "deprecated": named})
        save(ctx, obj, float(w) < 1, named, w, vs,
             {"created": v, "changed to": w, "installed": vs})
    # the name decides
    for name, dep in (("DatedLonger", True), ("Date", True),
                      ("GeneralFIR", False)):
        obj = call(ctx.sf.Sofa, "Dated", version=vs[0], verify=False).value
        obj.protected = False
        obj.GLOBAL_SOFAConventions = name
        obj.GLOBAL_SOFAConventionsVersion = {
            "DatedLonger": "99.0", "Date": "98.0", "GeneralFIR": "1.0"}[name]
        obj.protected = True
        ctx.trace()
        verifies(ctx, obj, False, dep, {"renamed": name})


def verifies(ctx, obj, prelim, dep, info):
    for mode in ("read", "write", "read"):
        for h in HANDLING:
            ctx.step()
            ctx.state(prelim, dep, mode, h, repr(info))
            out = call(obj.verify, h, mode)
            error = dep and mode == "write"
            warn = prelim or (dep and mode == "read")
            what = "verify(%r, %r) of %s%sdata" % (
                h, mode, "preliminary " if prelim else "",
                "deprecated " if dep else "")
            if h == "raise":
                ctx.require(out.raised(ValueError) if error else out.ok,
                            what + ": %r" % out, **info)
                ctx.require(bool(out.warnings) == warn,
                            what + " warns %r" % out.warnings, **info)
                ctx.require(out.stdout == "", what + " prints", **info)
            else:
                ctx.require(out.ok and not out.warnings,
                            what + ": %r" % out, **info)
                text = {"return": out.value or "", "print": out.stdout,
                        "ignore": ""}[h]
                if h == "ignore":
                    ctx.require(out.value is None and out.stdout == "",
                                what + ": %r" % out, **info)
                else:
                    ctx.require(bool(text.strip()) == (error or warn),
                                what + ": %r" % out, **info)
            ctx.outcome("error" if error else "warning" if warn else "quiet")


def save(ctx, obj, prelim, dep, version, vs, info):
    path = os.path.join(ctx.dir, "dated.sofa")
    for _ in range(2):
        before = ref.snapshot(obj)
        out = call(ctx.sf.write_sofa, path, obj)
        ctx.step()
        old = float(version) < max(float(w) for w in vs)
        ctx.require(ref.snapshot(obj) == before, "saving changed the object",
                    **info)
        if dep:
            ctx.require(out.raised(ValueError), "deprecated data saved: %r"
                        % out, **info)
            ctx.require(not os.path.exists(path), "file of deprecated data",
                        **info)
            ctx.outcome("save refused")
            continue
        ctx.require(out.ok, "saving raised %r" % out.exc, **info)
        ctx.require(os.path.isfile(path), "nothing saved", **info)
        ctx.require(bool(out.warnings) == (old or prelim),
                    "saving version %s (installed %s) warns %r" % (
                        version, vs, out.warnings), **info)
        if old and not prelim:
            ctx.require(any(version in w for w in out.warnings),
                        "warning without version: %r" % out.warnings, **info)
        os.remove(path)
        ctx.outcome("saved with warning" if old or prelim else "saved")


def one(ctx, name, version, vs, dep):
    sf = ctx.sf
    prelim = float(version) < 1
    info = {"data": [name, version], "installed": vs, "deprecated": dep}
    for mandatory in (False, True):
        for verify in ("auto", True, False):
            ctx.step()
            out = call(sf.Sofa, name, mandatory, version, verify)
            ctx.require(out.ok, "creation raised %r" % out.exc, **info)
            args = dict(info, mandatory=mandatory, verify=verify)
            ctx.state("create", name, version, mandatory, verify, *vs)
            if prelim:
                ctx.require(out.warnings, "preliminary data created without "
                            "warning", **args)
            elif dep and verify and not mandatory:
                ctx.require(out.warnings, "deprecated data created and "
                            "verified without warning", **args)
            elif not dep:
                ctx.require(not out.warnings, "warnings %r" % out.warnings,
                            **args)
            ctx.outcome("created with warning" if out.warnings else "created")
    if float(version) == max(float(w) for w in vs):
        out = call(sf.Sofa, name)
        ctx.require(out.ok and (bool(out.warnings) == (prelim or dep)),
                    "Sofa(%r): %r" % (name, out), **info)
        ctx.step()
    obj = call(sf.Sofa, name, version=version, verify=False).value
    ctx.trace()
    verifies(ctx, obj, prelim, dep, info)
    verifies(ctx, obj.copy(), prelim, dep, dict(info, copy=True))
    save(ctx, obj, prelim, dep, version, vs, info)

    # read data of this convention
    path = os.path.join(ctx.dir, "read.sofa")
    donor = call(sf.Sofa, name, version=version, verify=False).value
    ident = donor.GLOBAL_SOFAConventions
    donor.protected = False
    if dep:
        # written under the name of another convention, then renamed
        donor = stand_in(sf, donor, name, version)
    out = call(sf.write_sofa, path, donor)
    ctx.require(out.ok, "saving raised %r" % out.exc, **info)
    with netCDF4.Dataset(path, "a") as f:
        f.setncattr("SOFAConventions", ident)
        f.setncattr("SOFAConventionsVersion", version)
    for verify in ("auto", True, False):
        for verbose in (True, False):
            ctx.step()
            out = call(sf.read_sofa, path, verify, verbose)
            args = dict(info, verify=verify)
            ctx.require(out.ok, "reading raised %r" % out.exc, **args)
            if not prelim and not dep:
                ctx.require(not out.warnings, "reading warns %r"
                            % out.warnings, **args)
            elif verify is True or (verify == "auto" and not prelim):
                ctx.require(out.warnings, "reading and verifying does not "
                            "warn", **args)
            got = out.value
            ctx.require((got.GLOBAL_SOFAConventions,
                         got.GLOBAL_SOFAConventionsVersion)
                        == (name, version), "wrong data read", **args)
            verifies(ctx, got, prelim, dep, dict(args, read=True))
            save(ctx, got, prelim, dep, version, vs, dict(args, read=True))
    os.remove(path)


def stand_in(sf, donor, name, version):
    """Object of a convention in use with the entries of the donor."""
    new = {"SimpleFreeFieldTF": "SimpleFreeFieldHRTF",
           "MultiSpeakerBRIR": "SingleRoomMIMOSRIR"}.get(name, "GeneralFIR")
    out = call(sf.Sofa, new, verify=False).value
    out.protected = False
    if name == "MultiSpeakerBRIR":
        out.GLOBAL_DataType = "FIR-E"
    for k, v in ref.entries(donor).items():
        if hasattr(out, k) and not k.startswith(("GLOBAL_SOFA",
                                                 "GLOBAL_DataType",
                                                 "GLOBAL_Room")):
            setattr(out, k, v)
    for k in list(ref.entries(out)):
        if not hasattr(donor, k):
            delattr(out, k)
    out.protected = True
    if not call(out.verify).ok:
        call(out.add_missing, True, False)
    return out
