"""C05 file names: all pairs of names of an alphabet x kinds of path objects;
two different objects are saved under the two names and found again."""
import itertools
import os
import pathlib

from ..engine import call

PROPERTY = "C05"
TECHNIQUE = ("exhaustive enumeration of pairs of file names x path kinds on "
             "the real reader and writer against a naming oracle")

NAMES = ["a", "a.sofa", "a.b", "a.b.sofa", "a.c", "a.SOFA", "a.sofa.sofa",
         "a.sofa.bak", "sofa", ".sofa", ".hidden", "a ", "a b.x", "a..b",
         "\u00e9", "\u00e9.sofa", "a.1", "a.10", "v1.0", "v1.2", "asofa",
         "a.sof", "a.nc", "a-sofa", "A", "a.", "a.Sofa", "a.sofa.", "x" * 60,
         "a$HOME", "$HOME", "${MC_NAME}", "~", "~root", "e\u0301", "\uff41",
         "a%41", "a*", "[a]", "a:b", "a#b", "a;b", "\u212b", "\u00c5",
         " a", "A.sofa", "\u00df", "ss", "a\tb", "-a"]
PLACES = ["", "sub", "sub.dir", "sub.sofa", "~", "$MC_NAME"]
KINDS = ["str", "Path", "relative str", "relative Path"]


def final(name):
    return name if name.endswith(".sofa") else name + ".sofa"


def BOUNDS(tier):
    return {"names": len(NAMES), "pairs": "all", "kinds": KINDS,
            "folders": PLACES}


def cases(tier):
    out = [["single", k, p] for k in KINDS for p in PLACES]
    kinds = KINDS if tier == "thorough" else ["relative str"]
    return out + [["pairs", k, n] for k in kinds for n in NAMES]


def path_of(work, place, name, kind):
    if kind.startswith("relative"):
        p = os.path.join(place, name) if place else name
    else:
        p = os.path.join(work, place, name)
    return pathlib.Path(p) if kind.endswith("Path") else p


def listing(work):
    return sorted(os.path.relpath(os.path.join(b, f), work)
                  for b, _, fs in os.walk(work) for f in fs)


def title(sf, path):
    """Title of the file a stream opens."""
    with sf.SofaStream(path) as stream:
        return stream.GLOBAL_Title


def clear(work):
    for f in listing(work):
        os.remove(os.path.join(work, f))


def run(case, ctx):
    sf = ctx.sf
    work = os.path.join(ctx.dir, "names")
    for p in PLACES:
        os.makedirs(os.path.join(work, p), exist_ok=True)
    old = os.getcwd()
    os.chdir(work)
    # names are never expanded
    home = {k: os.environ.get(k) for k in ("HOME", "MC_NAME")}
    os.environ["HOME"] = os.path.join(work, "sub")
    os.environ["MC_NAME"] = "a"
    try:
        if case[0] == "single":
            single(ctx, sf, work, *case[1:])
        else:
            for other in NAMES:
                pair(ctx, sf, work, case[1], case[2], other)
    finally:
        os.chdir(old)
        for k, v in home.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def data(sf, title):
    obj = sf.Sofa("GeneralTF")
    obj.GLOBAL_Title = title
    return obj


def single(ctx, sf, work, kind, place):
    for name in NAMES:
        clear(work)
        p = path_of(work, place, name, kind)
        want = os.path.join(place, final(name))
        ctx.step(3)
        ctx.state(kind, place, name)
        out = call(sf.read_sofa, p, verbose=False)
        ctx.require(not out.ok,
                    "reading a missing file: %r" % out, name=name)
        complete = path_of(work, place, final(name), kind)
        out = call(title, sf, complete)
        ctx.require(not out.ok,
                    "streaming a missing file: %r" % out, name=name)
        out = call(sf.write_sofa, p, data(sf, name))
        ctx.require(out.ok, "saving as %r raised %r" % (p, out.exc))
        ctx.require(listing(work) == [want], "saving as %r created %s" % (
            p, listing(work)))
        for variant in {name, final(name)}:
            for reader in (lambda q: sf.read_sofa(q, verbose=False),
                           sf.read_sofa_as_netcdf):
                out = call(reader, path_of(work, place, variant, kind))
                ctx.require(out.ok and out.value.GLOBAL_Title == name,
                            "reading %r: %r" % (variant, out))
        # (streams are opened with the complete name)
        out = call(title, sf, complete)
        ctx.require(out.ok and out.value == name,
                    "streaming %r: %r" % (complete, out))
        ctx.require(listing(work) == [want], "reading created files")
        ctx.trace()
    clear(work)


def pair(ctx, sf, work, kind, first, second):
    clear(work)
    ctx.state(kind, first, second)
    objects = {}
    for n, name in enumerate((first, second)):
        ctx.step()
        out = call(sf.write_sofa, path_of(work, "", name, kind),
                   data(sf, "%d" % n))
        ctx.require(out.ok, "saving as %r raised %r" % (name, out.exc))
        objects[final(name)] = "%d" % n
    ctx.require(listing(work) == sorted(objects),
                "saving as %r and %r created %s" % (
                    first, second, listing(work)))
    for name in (first, second):
        ctx.step(2)
        out = call(sf.read_sofa, path_of(work, "", name, kind),
                   verbose=False)
        ctx.require(out.ok and out.value.GLOBAL_Title ==
                    objects[final(name)],
                    "%r does not contain the data saved under this name (%r)"
                    % (name, out), names=[first, second])
        out = call(title, sf, path_of(work, "", final(name), kind))
        ctx.require(out.ok and out.value == objects[final(name)],
                    "the stream of %r does not contain the data saved under "
                    "this name (%r)" % (name, out), names=[first, second])
    ctx.trace()
    ctx.outcome("same file" if final(first) == final(second)
                else "different files")
    clear(work)
