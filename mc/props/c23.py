"""C23 available conventions: installations with every small set of
conventions (names that are prefixes of each other, several versions, current
and deprecated, with and without sources) are built and the list of the real
package is compared with them; every pair of name and version of the universe
is created and read."""
import itertools
import os
import re
import shutil

from .. import fixture, nc, ref
from ..engine import call
from . import c03, c20

PROPERTY = "C23"
TECHNIQUE = ("exhaustive enumeration of installed sets of conventions on "
             "separate installations of the real package, each name and "
             "version of the universe listed, created and read")

NAMES = ["Ab", "AbC", "AbCd", "Ab-C"]
VERSIONS = ["0.1", "1.0", "2.0", "10.0"]
UNIVERSE = [[n, v] for n in NAMES for v in VERSIONS]
FEW = [["Ab", "1.0"], ["Ab", "10.0"], ["AbC", "1.0"], ["AbC", "2.0"],
       ["AbCd", "0.1"], ["Ab-C", "1.0"], ["Ab-C", "10.0"], ["AbCd", "2.0"]]
# installations that follow each other in one process (True: deprecated)
SETS = [[], [["Ab", "1.0"]], [["Ab", "10.0"]], [["Ab", "1.0", True]],
        [["Ab", "1.0"], ["Ab", "10.0"]], [["Ab", "1.0", True], ["Ab", "10.0"]],
        [["AbC", "1.0"], ["Ab-C", "1.0"]],
        [["Ab", "1.0"], ["AbC", "1.0", True], ["AbCd", "2.0"]]]
FEWER = [["Ab", "1.0"], ["Ab", "10.0"], ["AbC", "1.0"], ["AbCd", "2.0"]]
STANDARD = ["2.1", "2022.1", "1.0-beta", "10"]


def BOUNDS(tier):
    return {"names": NAMES, "versions": VERSIONS, "sets": "all of up to 2 of "
            "16, all of 3 of %d" % (16 if tier == "thorough" else len(FEW)),
            "histories": "all changes between two (thorough: three) of %d "
            "sets of installed conventions within a process" % len(SETS),
            "placement": "current or deprecated folder", "sources": "with "
            "and without tables", "standard versions": STANDARD}


def cases(tier):
    out = [["main"]]
    n = 0
    sets = [s for k in (0, 1, 2) for s in itertools.combinations(UNIVERSE, k)]
    sets += list(itertools.combinations(
        UNIVERSE if tier == "thorough" else FEW, 3))
    for s in sets:
        n += 1
        out.append(["set", list(s), n % 4, n % 3 != 0,
                    STANDARD[n % len(STANDARD)]])
    out += [["history", i, j] for i in range(len(SETS))
            for j in range(len(SETS)) if i != j]
    return out


def tables(inst, title="table of %s %s"):
    rows = fixture.SPEC[("GeneralFIR", "1.0", False)]
    return {(i[0], i[1], len(i) > 2): [
        r if r[0] != "GLOBAL:Title" else
        r[:1] + (title % (i[0], i[1]),) + r[2:]
        for r in c20.table(rows, i[0], i[1])] for i in inst}


def history(ctx, steps):
    """The installed conventions change while the package is in use."""
    base = os.path.join(ctx.root, "sofar", "sofa_conventions")
    old = None
    for n, i in enumerate(steps):
        inst = SETS[i]
        title = ("table of %s %s", "new table of %s %s")[n % 2]
        if n:
            conv = os.path.join(base, "conventions")
            shutil.rmtree(conv)
            scratch = os.path.join(ctx.root, "next")
            fixture.write_tree(scratch, spec=tables(inst, title), csv=True)
            os.rename(os.path.join(scratch, "conventions"), conv)
            shutil.rmtree(scratch)
        look(ctx, [x[:2] for x in inst], FEWER, "2.1", title)
        # objects of the previous installation and saving
        for x in inst:
            ctx.step()
            out = call(ctx.sf.Sofa, x[0], version=x[1], verify=False)
            latest = max((y[1] for y in inst if y[0] == x[0]), key=float)
            res = call(ctx.sf.write_sofa, os.path.join(ctx.dir, "w.sofa"),
                       out.value)
            ctx.require(res.ok, "saving raised %r" % res.exc, steps=steps)
            ctx.require(any("outdated" in w for w in res.warnings)
                        == (latest != x[1]), "saving version %s of %s warns "
                        "%s" % (x[1], latest, res.warnings), steps=steps)
        if old is not None and i:
            res = call(old.verify)
            there = OLD in [x[:2] for x in inst]
            ctx.step()
            ctx.require(res.ok if there else res.exc is not None,
                        "verification of an object of the previous "
                        "installation: %r" % res, steps=steps)
        if OLD in [x[:2] for x in inst]:
            old = call(ctx.sf.Sofa, *OLD[:1], version=OLD[1]).value


OLD = ["Ab", "1.0"]


def run(case, ctx):
    if case[0] == "main":
        inst = [[n, v] for (n, v, _) in fixture.SPEC]
        look(ctx, inst, inst, "2.1", False)
        return
    if case[0] == "history":
        more = [[k] for k in range(len(SETS)) if k != case[2]] \
            if ctx.tier == "thorough" else [[case[1]]]
        for rest in more:
            steps = case[1:] + rest
            ctx.isolated(history, steps, spec=tables(SETS[steps[0]]),
                         deprecations={"GLOBAL:SOFAConventions": {}},
                         upgrade={}, version="2.1")
        ctx.sample(case)
        return
    _, inst, place, csv, standard = case
    rows = fixture.SPEC[("GeneralFIR", "1.0", False)]
    spec = {}
    for i, (n, v) in enumerate(inst):
        spec[(n, v, bool((place >> (i % 2)) & 1))] = [
            r if r[0] != "GLOBAL:Title" else
            r[:1] + ("table of %s %s" % (n, v),) + r[2:]
            for r in c20.table(rows, n, v)]
    ctx.isolated(look, inst, UNIVERSE, standard, spec=spec, csv=csv,
                 version=standard, deprecations={
                     "GLOBAL:SOFAConventions": {}}, upgrade={})
    ctx.sample(case)


def look(ctx, inst, universe, standard, titled=True):
    sf = ctx.sf
    inst = [tuple(i) for i in inst]
    info = {"installed": inst}
    ctx.trace()
    for _ in range(2):
        ctx.step()
        out = call(sf.list_conventions)
        ctx.require(out.ok and out.value is None, "list: %r" % out, **info)
        listed = re.findall(r"^(\S+) \(Version (\S+)\)$", out.stdout, re.M)
        ctx.require(sorted(listed) == sorted(inst), "listed: %s" % listed,
                    **info)
    out = call(sf.version)
    words = (out.value or "").split()
    ctx.step()
    ctx.require(out.ok and standard in words and any(
        w.strip("v,") == sf.__version__ for w in words),
        "version() is %r" % out, standard=standard)

    # one file per convention and version
    for n, v in universe:
        n, v = str(n), str(v)
        there = (n, v) in inst
        args = dict(info, wanted=[n, v])
        ctx.state(n, v, *sorted(inst))
        out = call(sf.Sofa, n, version=v, verify=False)
        ctx.step()
        if not there:
            ctx.require(out.raised(ValueError), "created: %r" % out, **args)
        else:
            ctx.require(out.ok, "not created: %r" % out.exc, **args)
            identity(ctx, out.value, n, v, titled, args)
        attrs, dims, items = c03.build(
            {"conv": ["GeneralFIR", "1.0"], "as": n, "asversion": v})
        path = os.path.join(ctx.dir, "named.sofa")
        nc.write(path, attrs, dims, items)
        for verify in (False, "auto"):
            out = call(sf.read_sofa, path, verify, False)
            ctx.step()
            if not there:
                ctx.require(out.raised(ValueError), "read: %r" % out, **args)
            elif verify is False or titled:
                ctx.require(out.ok, "not read: %r" % out.exc, **args)
                identity(ctx, out.value, n, v, False, args)
        os.remove(path)
        ctx.outcome("installed" if there else "not installed")
    for name in sorted({n for n, _ in universe}):
        name = str(name)
        have = [v for n, v in inst if n == name]
        out = call(sf.Sofa, name, verify=False)
        ctx.step()
        args = dict(info, latest=name)
        if not have:
            ctx.require(out.raised(ValueError), "created: %r" % out, **args)
        else:
            ctx.require(out.ok, "not created: %r" % out.exc, **args)
            identity(ctx, out.value, name, max(have, key=float),
                     titled, args)
    for name in ("A", "", "Ab_1.0", "Ab_", "_", "ab", "*", "Ab*", "deprecated",
                 "Ab-", "AbC "):
        out = call(sf.Sofa, name, verify=False)
        ctx.step()
        ctx.require(out.raised(ValueError), "Sofa(%r): %r" % (name, out),
                    **info)
    for n, v in (("Ab", "1"), ("Ab", "1.00"), ("Ab", "01.0"), ("Ab", "*"),
                 ("Ab", ""), ("Ab", ".0"), ("Ab", "0")):
        out = call(sf.Sofa, n, version=v, verify=False)
        ctx.step()
        ctx.require(out.raised(ValueError), "Sofa(%r, %r): %r" % (n, v, out),
                    **info)


def identity(ctx, obj, name, version, title, args):
    ctx.require((obj.GLOBAL_SOFAConventions,
                 obj.GLOBAL_SOFAConventionsVersion) == (name, version),
                "got %s %s" % (obj.GLOBAL_SOFAConventions,
                               obj.GLOBAL_SOFAConventionsVersion), **args)
    if title:
        want = title if isinstance(title, str) else "table of %s %s"
        ctx.require(obj.GLOBAL_Title == want % (name, version),
                    "content is the %s" % obj.GLOBAL_Title, **args)
