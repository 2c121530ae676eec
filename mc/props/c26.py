"""C26 failed downloads: the real update runs against a stand-in for the web
site that fails at every request in every way (and at every pair of requests
of consecutive updates), for all combinations of published and installed
states; folder before and after, and the later undisturbed update compared."""
import itertools
import os
import shutil

from .. import fixture, web
from ..engine import call
from . import c25

PROPERTY = "C26"
TECHNIQUE = ("exhaustive fault injection: each request of an update x each "
             "kind of failure x published and installed states, executed "
             "with the real update against an in-process web site")

PUBLISHED = ["std1", "dep2", "absent"]
INSTALLED = ["absent", "std1", "dep1csv"]
MORE = ["std1", "std2crlf", "dep1", "dep2"], \
    ["absent", "std1", "std1csv", "dep1", "dep1tabs"]
NAMES = c25.NAMES


def BOUNDS(tier):
    return {"kinds of failure": web.FAULTS + ["interrupt at the prompt",
                                              "end of input at the prompt"],
            "requests": "each", "published states": PUBLISHED,
            "installed states": INSTALLED, "conventions": 2,
            "single convention": [MORE[0], MORE[1]],
            "consecutive failures": "every pair of requests",
            "folder": "given, missing, inside the package"}


def cases(tier):
    out = []
    many = tier == "thorough"
    pub = MORE[0] + ["absent"] if many else PUBLISHED
    inst = MORE[1] if many else INSTALLED
    for p in itertools.product(pub, repeat=2):
        for i in itertools.product(inst, repeat=2):
            out.append(["single", list(p), list(i)])
    out += [["one", p, i] for p in MORE[0] for i in MORE[1]]
    out += [["double", list(p), list(i)]
            for p in itertools.product(PUBLISHED, repeat=2)
            for i in itertools.product(INSTALLED, repeat=2)
            if many or p[0] != p[1]]
    out += [["package", p, i] for p in MORE[0] for i in MORE[1]]
    out += [["missing", list(p)] for p in itertools.product(
        MORE[0], repeat=2)]
    return out


def requests_of(ctx, pub, arg, path, inst):
    """Undisturbed update: number of requests and the result."""
    restore(path, inst)
    r = web.update(ctx.sf, web.Site(c25.published(pub)), arg, True)
    ctx.require(r.exc is None, "update raised %r" % r.exc,
                published=pub)
    return len(r.log), c25.tree(path)


def restore(path, inst):
    shutil.rmtree(path, ignore_errors=True)
    if inst is not None:
        c25.install(path, inst)


def failing(ctx, sf, site, arg, path, before, info, yes, answer="y"):
    """One failing update; the folder is as before."""
    ctx.step()
    r = web.update(sf, site, arg, yes, answer)
    ctx.require(r.exc is not None, "update ends without an error: %r" % r,
                **info)
    after = c25.tree(path)
    ctx.require(after == before, "failed update changed %s" % sorted(
        f for f in set(after) | set(before)
        if after.get(f) != before.get(f)), **info)
    ctx.outcome(type(r.exc).__name__)
    return r


def undisturbed(ctx, sf, pub, arg, path, want, info, yes):
    ctx.step()
    r = web.update(sf, web.Site(c25.published(pub)), arg, yes, "y")
    ctx.require(r.exc is None, "later update raised %r" % r.exc, **info)
    got = c25.tree(path)
    ctx.require(got == want, "result of the later update differs: %s" % sorted(
        f for f in set(got) | set(want) if got.get(f) != want.get(f)), **info)


def run(case, ctx):
    kind = case[0]
    if kind == "package":
        spec = {("GeneralTF", "2.0", False):
                fixture.SPEC[("GeneralTF", "2.0", False)]}
        ctx.isolated(package, case[1], case[2], spec=spec, upgrade={},
                     deprecations={"GLOBAL:SOFAConventions": {}})
        ctx.sample(case)
        return
    if kind == "missing":
        pub, inst = dict(zip(NAMES, case[1])), None
    elif kind == "one":
        pub, inst = {NAMES[0]: case[1]}, {NAMES[0]: case[2]}
    else:
        pub, inst = dict(zip(NAMES, case[1])), dict(zip(NAMES, case[2]))
    path = os.path.join(ctx.dir, "conventions")
    info = {"published": pub, "installed": inst}
    try:
        n, want = requests_of(ctx, pub, path, path, inst)
        restore(path, inst)
        before = c25.tree(path)
        ctx.trace()
        if kind == "double":
            for i, j in itertools.product(range(n), repeat=2):
                a, b = web.FAULTS[(i + j) % len(web.FAULTS)], web.FAULTS[
                    (2 * i + 3 * j + 1) % len(web.FAULTS)]
                args = dict(info, faults=[[i, a], [j, b]])
                ctx.state(repr(args))
                restore(path, inst)
                failing(ctx, ctx.sf, web.Site(c25.published(pub), {i: a}),
                        path, path, before, args, True)
                failing(ctx, ctx.sf, web.Site(c25.published(pub), {j: b}),
                        path, path, before, args, False)
                undisturbed(ctx, ctx.sf, pub, path, path, want, args, True)
                ctx.trace()
        else:
            for i in range(n):
                for k, fault in enumerate(web.FAULTS):
                    args = dict(info, fault=[i, fault])
                    ctx.state(repr(args))
                    if kind == "missing" or k % 3 == 0:
                        restore(path, inst)
                    failing(ctx, ctx.sf, web.Site(
                        c25.published(pub), {i: fault}, style=k), path, path,
                        before, args, bool(k % 2))
                    if k % 3 == 2 or kind == "missing":
                        undisturbed(ctx, ctx.sf, pub, path, path, want, args,
                                    bool(i % 2))
                        ctx.trace()
            if inst is not None and c25.changes(inst, pub):
                for answer in ("interrupt", "eof"):
                    args = dict(info, prompt=answer)
                    restore(path, inst)
                    failing(ctx, ctx.sf, web.Site(c25.published(pub)), path,
                            path, before, args, False, answer)
                    undisturbed(ctx, ctx.sf, pub, path, path, want, args,
                                True)
                    ctx.trace()
    finally:
        shutil.rmtree(path, ignore_errors=True)
    ctx.sample(case)


def package(ctx, p, i):
    """Conventions inside the package stay usable."""
    sf = ctx.sf
    name = c25.NAMES[0]
    path = os.path.join(os.path.dirname(sf.__file__), "sofa_conventions",
                        "conventions")
    work = path + "-new"
    c25.install(work, {name: i})
    for f in c25.tree(work):
        shutil.copy(os.path.join(work, f), os.path.join(path, f))
    shutil.rmtree(work)
    before = c25.tree(path)
    info = {"published": {name: p}, "installed": {name: i}, "package": True}
    site = c25.published({name: p})
    listed = call(sf.list_conventions).stdout
    r = web.update(sf, web.Site(site), None, False, "n")
    for n in range(len(r.log)):
        for fault in web.FAULTS:
            args = dict(info, fault=[n, fault])
            ctx.state(repr(args))
            failing(ctx, sf, web.Site(site, {n: fault}), None, path, before,
                    args, True)
            ctx.require(call(sf.list_conventions).stdout == listed,
                        "list of conventions changed", **args)
            ctx.require(call(sf.Sofa, "GeneralTF").ok,
                        "conventions can not be used", **args)
    ctx.trace()
    pub, inst = {name: p}, {name: i}
    need = c25.changes(inst, pub)
    r = web.update(sf, web.Site(site), None, True)
    ctx.step()
    ctx.require(r.exc is None, "later update raised %r" % r.exc, **info)
    if need:
        c25.check_installed(ctx, before, c25.tree(path), inst, pub, info)
    else:
        ctx.require(c25.tree(path) == before, "files modified", **info)


