"""C08 new objects: all conventions x versions x arguments, including wrong
ones, on the real constructor against the convention tables.  Several version
sets of a convention are enumerated on separate installations."""
import itertools

import numpy as np

from .. import fixture, ref
from ..engine import call

PROPERTY = "C08"
TECHNIQUE = ("exhaustive enumeration of constructor arguments x installed "
             "conventions (separate installations for version sets) against "
             "the convention tables")

FILLED = {"GLOBAL_DateCreated", "GLOBAL_DateModified", "GLOBAL_APIName",
          "GLOBAL_APIVersion", "GLOBAL_ApplicationName",
          "GLOBAL_ApplicationVersion"}
VERSIONS = ["0.1", "0.9", "0.2", "1.0", "1.5", "2.0", "9.0", "10.0", "11.5"]
BAD = [["Unknown", "latest", "ValueError"], ["", "latest", "ValueError"],
       ["GeneralFI", "latest", "ValueError"],
       ["General", "latest", "ValueError"],
       ["generalfir", "latest", "ValueError"],
       ["GeneralFIR_1.0", "latest", "ValueError"],
       ["GeneralFIR_", "latest", "ValueError"],
       ["GeneralFIR", "9.0", "ValueError"], ["GeneralFIR", "", "ValueError"],
       ["GeneralFIR", "1", "ValueError"], ["GeneralFIR", "1.00", "ValueError"],
       ["GeneralFIR", "Latest", "ValueError"],
       ["GeneralFIR", "2.0", "ValueError"],
       ["GeneralFIR-E", "1.0", "ValueError"],
       ["GeneralTF", "0.9", "ValueError"],
       [1, "latest", "TypeError"], [1.5, "latest", "TypeError"],
       [["GeneralFIR"], "latest", "TypeError"],
       [{"a": 1}, "latest", "TypeError"], [True, "latest", "TypeError"]]


def BOUNDS(tier):
    return {"conventions and versions": len(fixture.SPEC),
            "arguments": "mandatory x version given or latest x verify",
            "made up tables": "%d dimension combinations x default values"
            % len(DIMENSIONS),
            "version sets": "all subsets of 1..3 of %s" % VERSIONS,
            "wrong arguments": len(BAD)}


def cases(tier):
    out = [["conv", n, v] for (n, v, _) in fixture.SPEC] + [["bad"]]
    top = 4 if tier == "thorough" else 2
    for k in range(1, top + 1):
        for vs in itertools.combinations(VERSIONS, k):
            out.append(["versions", list(vs)])
    if tier != "thorough":
        for vs in itertools.combinations(VERSIONS[3:], 3):
            out.append(["versions", list(vs)])
    out += [["table", d] for d in DIMENSIONS]
    return out


# dimension combinations of made up entries
DIMENSIONS = ["I", "M", "IC, MC", "IR, I", "I, IR", "MR, M", "M, MR",
              "mRn, MR, M", "M, MR, MRN", "IRI, MRI, IRE, MRE", "IM, MI, I",
              "MRNE, MR", "MS", "IS, MS", "S, MS", "MRS, IS"]
DEFAULTS = [0, 1.5, -2, [0], [0, 0], [1, 2, 3], [[1, 2, 3]], [[0, 1], [2, 3]],
            [[[1, 2], [3, 4]]], [[[0, 0, 0, 1, 0, 0]]]]


def table(ctx, dims):
    """Default values of all kinds for an entry with the dimensions."""
    if "S" in dims:
        defaults = [[""], ["a"], ["a", "b"], "", "text"]
        typ = "string"
    else:
        defaults, typ = DEFAULTS, "double"
    conv = ref.convention(TABLE(dims, defaults, typ))
    for mandatory in (False, True):
        for how in (None, "latest", "1.0"):
            check(ctx, ctx.sf, "Table", "1.0", conv, mandatory, False, how)


def TABLE(dims, defaults, typ):
    rows = [("GLOBAL:SOFAConventions", "Table") + r[2:]
            if r[0] == "GLOBAL:SOFAConventions" else r
            for r in fixture.SPEC[("GeneralFIR", "1.0", False)]]
    for i, d in enumerate(defaults):
        rows.append(("Entry%d" % i, d, None if i % 2 else "m", dims, typ, ""))
    return rows


def check(ctx, sf, name, version, conv, mandatory, verify, how):
    """One construction; `how` = version argument."""
    kw = {}
    if how is not None:
        kw["version"] = how
    if mandatory is not None:
        kw["mandatory"] = mandatory
    if verify is not None:
        kw["verify"] = verify
    info = {"call": [name, kw]}
    ctx.step()
    out = call(sf.Sofa, name, **kw)
    ctx.state(name, repr(kw))
    ctx.require(out.ok, "constructor raised %r" % out.exc, **info)
    got = ref.entries(out.value)
    want = {k for k, s in conv.items()
            if ref.mandatory(s) or not mandatory}
    ctx.require(set(got) == want, "entries: %s" % sorted(set(got) ^ want),
                **info)
    for k in want:
        s = conv[k]
        val = got[k]
        if k in FILLED:
            ctx.require(isinstance(val, str) and val != "",
                        "%s is %r" % (k, val), **info)
            continue
        d = s["default"]
        if isinstance(d, str):
            ctx.require(isinstance(val, str) and val == d,
                        "%s is %r instead of %r" % (k, val, d), **info)
            continue
        a = np.array(d)
        ndim = max(len(s["dimensions"].split(", ")[0]), a.ndim)
        flat = np.ravel(np.asarray(val))
        ctx.require(flat.tolist() == np.ravel(a).tolist()
                    and flat.dtype.kind == a.dtype.kind,
                    "%s is %r instead of %r" % (k, val, d), **info)
        if isinstance(d, list):
            ctx.require(isinstance(val, np.ndarray) and val.ndim == ndim,
                        "%s has %d dimensions instead of %d" % (
                            k, np.ndim(val), ndim), **info)
            ctx.require(
                tuple(n for n in val.shape if n > 1)
                == tuple(n for n in a.shape if n > 1),
                "%s has shape %s" % (k, val.shape), **info)
            ctx.require(ref.canon(val) == ref.canon(ref.default_value(s)),
                        "%s is %r instead of %r" % (
                            k, val, ref.default_value(s)), **info)
    ctx.require(list(got) == [k for k in conv if k in want],
                "order of the entries", **info)
    ctx.require(bool(out.value.protected), "object is not protected", **info)
    ctx.trace()
    return out.value


def run(case, ctx):
    if case[0] == "table":
        defaults, typ = ([[""], ["a"], ["a", "b"], "", "text"], "string") \
            if "S" in case[1] else (DEFAULTS, "double")
        ctx.isolated(table, case[1], spec={("Table", "1.0", False): TABLE(
            case[1], defaults, typ)})
        return
    if case[0] == "versions":
        spec = {}
        rows = fixture.SPEC[("GeneralFIR", "1.0", False)]
        for i, v in enumerate(case[1]):
            new = [r if r[0] != "GLOBAL:SOFAConventionsVersion"
                   else r[:1] + (v,) + r[2:] for r in rows]
            new = [r if r[0] != "GLOBAL:Title" else r[:1] + (
                "table of " + v,) + r[2:] for r in new]
            spec[("Versioned", v, bool(i % 2))] = new
        spec[("VersionedLonger", "99.0", False)] = rows
        ctx.isolated(versions, case[1], spec=spec)
        return
    sf = ctx.sf
    if case[0] == "bad":
        for name, version, error in BAD:
            for mandatory in (False, True):
                for verify in ("auto", True, False):
                    ctx.step()
                    out = call(sf.Sofa, name, mandatory, version, verify)
                    ctx.state(repr(name), version, mandatory, verify)
                    ctx.require(
                        out.exc is not None
                        and type(out.exc).__name__ == error,
                        "Sofa(%r, version=%r): %r" % (name, version, out))
                    ctx.outcome(error)
        return
    _, name, version = case
    all_v = [v for (n, v, _) in fixture.SPEC if n == name]
    latest = max(all_v, key=float)
    for (n, v, _), rows in fixture.SPEC.items():
        if (n, v) == (name, version):
            conv = ref.convention(rows)
    hows = [version]
    if version == latest:
        hows += [None, "latest"]
    for how in hows:
        for mandatory in (None, False, True):
            for verify in (None, "auto", True, False):
                check(ctx, sf, name, version, conv, mandatory, verify, how)
    # objects do not depend on objects created and edited before
    first = check(ctx, sf, name, version, conv, False, False, version)
    first.protected = False
    for k, v in list(ref.entries(first).items()):
        if isinstance(v, np.ndarray) and v.dtype.kind in "if":
            v += 5
        elif isinstance(v, str) and k not in (
                "GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion"):
            setattr(first, k, "changed")
    call(first.add_variable, "Custom", 1, "double", "I")
    check(ctx, sf, name, version, conv, False, False, version)
    ctx.sample(case)


def versions(ctx, vs):
    sf = ctx.sf
    best = max(vs, key=float)
    for how in [None, "latest"] + vs:
        for mandatory in (False, True):
            kw = {} if how is None else {"version": how}
            ctx.step()
            ctx.state(how, mandatory, *vs)
            out = call(sf.Sofa, "Versioned", mandatory=mandatory,
                       verify=False, **kw)
            want = best if how in (None, "latest") else how
            ctx.require(out.ok, "Sofa(%r) raised %r" % (kw, out.exc))
            got = (out.value.GLOBAL_SOFAConventionsVersion,
                   out.value.GLOBAL_Title)
            ctx.require(got == (want, "table of " + want),
                        "Sofa('Versioned', %r) of versions %s is %s" % (
                            kw, vs, got))
            ctx.trace()
    for bad in ("0.5", "99.0", "1"):
        if bad not in vs:
            ctx.step()
            ctx.require(call(sf.Sofa, "Versioned", version=bad).raised(
                ValueError), "version %s of %s accepted" % (bad, vs))
