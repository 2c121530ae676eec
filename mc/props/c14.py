"""C14 adding missing data: subsets of deleted entries of every convention
(all of size up to two or three, all but up to one, whole groups) x what is
requested x verbosity x presence of edits and custom entries."""
import itertools

from .. import fixture, model, ref
from ..engine import call

PROPERTY = "C14"
TECHNIQUE = ("exhaustive enumeration of deleted subsets x requests on the "
             "real object against the convention tables")

IDENTITY = ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion")
CONVS = [(n, v) for (n, v, _) in fixture.SPEC]
EXTRAS = ["none", "edited", "custom", "unprotected"]


def BOUNDS(tier):
    return {"conventions": len(CONVS), "requests": "mandatory x optional x "
            "verbose, given or default", "subsets of deleted entries":
            "all with at most %d entries, all that keep at most one entry, "
            "all mandatory, all optional, all of one variable" % (
                3 if tier == "thorough" else 1), "pairs": "every pair for "
            "each convention (one request each)", "extras": EXTRAS}


def deletable(conv):
    return [k for k in conv if k not in IDENTITY]


def cases(tier):
    out = []
    for n, v in CONVS:
        keys = deletable(model.conv_of(n, v))
        out += [["one", n, v, e] for e in EXTRAS]
        out += [["groups", n, v, e] for e in EXTRAS]
        out += [["pairs", n, v, k] for k in keys]
    if tier == "thorough":
        for n, v in CONVS[:6]:
            keys = deletable(model.conv_of(n, v))
            out += [["triples", n, v, k] for k in keys]
    return out


REQUESTS = [(m, o, b) for m in (True, False) for o in (True, False)
            for b in (True, False)] + [None]


def attempt(ctx, name, version, gone, request, extra):
    conv = model.conv_of(name, version)
    ctx.trace()
    obj, m = model.fresh(ctx.sf, name, version)
    obj.protected = False
    for k in gone:
        ctx.step()
        obj.delete(k)
    obj.protected = True
    if extra == "edited":
        for k, s in conv.items():
            if k in gone or ref.read_only(s) or k in IDENTITY:
                continue
            setattr(obj, k, "edited" if s["type"] == "attribute"
                    else [7, 8, 9])
    if extra == "custom":
        obj.add_variable("Mine", [1, 2], "double", "P")
        obj.add_attribute("GLOBAL_Mine", "mine")
        if "GLOBAL_Title" not in gone:
            obj.add_attribute("Mine_Units", "u")
    if extra == "unprotected":
        obj.protected = False
    before = ref.snapshot(obj)
    info = {"convention": [name, version], "deleted": sorted(gone),
            "request": request, "extra": extra}
    ctx.step()
    if request is None:
        out = call(obj.add_missing)
        mand, opt, verbose = True, True, True
    else:
        mand, opt, verbose = request
        out = call(obj.add_missing, mand, opt, verbose)
    ctx.require(out.ok, "add_missing raised %r" % out.exc, **info)
    want = {k for k in gone if (mand if ref.mandatory(conv[k]) else opt)}
    after = ref.snapshot(obj)
    added = set(after) - set(before)
    ctx.require(added == want, "added %s instead of %s" % (
        sorted(added), sorted(want)), **info)
    for k in before:
        ctx.require(after.get(k) == before[k], "entry %s changed: %r -> %r"
                    % (k, before[k], after.get(k)), **info)
    for k in want:
        got = ref.squeezed(getattr(obj, k))
        default = ref.squeezed(ref.store(conv[k]["default"]))
        ctx.require(got == default, "%s is %r instead of its default %r" % (
            k, got, default), **info)
    names = []
    for line in out.stdout.splitlines():
        if line.startswith("- "):
            names.append(line[2:].split()[0])
            flag = "mandatory" if ref.mandatory(conv.get(
                names[-1], {"flags": None})) else "optional"
            ctx.require(flag in line, "report %r" % line, **info)
    ctx.require(names == sorted(names, key=list(conv).index) and
                set(names) == (want if verbose else set())
                and len(names) == len(set(names)),
                "reported %s" % names, **info)
    if not verbose:
        ctx.require(out.stdout == "", "output %r" % out.stdout, **info)
    ctx.require(bool(obj.protected), "object is not protected", **info)
    # again
    ctx.step()
    out = call(obj.add_missing, mand, opt, True)
    ctx.require(out.ok and ref.snapshot(obj) == after and not any(
        ln.startswith("- ") for ln in out.stdout.splitlines()),
        "repeating adds or reports data: %r" % out, **info)
    # nothing is missing after adding everything
    if mand:
        out = call(obj.verify, "return")
        ctx.require(out.ok and "issing mandatory" not in (out.value or "")
                    and "Added mandatory" not in (out.value or ""),
                    "data are missing afterwards: %r" % out, **info)
    ctx.state(name, version, sorted(gone), request, extra)
    ctx.outcome("added %s" % ("some" if want else "nothing"))


def run(case, ctx):
    kind, n, v = case[:3]
    conv = model.conv_of(n, v)
    keys = deletable(conv)
    if kind == "one":
        for gone in [()] + [(k,) for k in keys]:
            for r in REQUESTS if ctx.tier == "thorough" or case[3] == "none" \
                    else REQUESTS[:8:3] + [None]:
                attempt(ctx, n, v, gone, r, case[3])
    elif kind == "groups":
        mand = [k for k in keys if ref.mandatory(conv[k])]
        opt = [k for k in keys if not ref.mandatory(conv[k])]
        groups = [keys, mand, opt] + [
            [k for k in keys if k != keep] for keep in keys]
        groups += [[k for k in keys if k == var or k.startswith(var + "_")]
                   for var in keys if "_" not in var]
        for g in groups:
            for r in ([None, (True, False, True), (False, True, True)]
                      if len(g) < len(keys) or g is not keys else REQUESTS):
                attempt(ctx, n, v, tuple(g), r, case[3])
    elif kind == "pairs":
        k = case[3]
        for i, other in enumerate(keys[keys.index(k) + 1:]):
            rs = REQUESTS if ctx.tier == "thorough" else \
                [REQUESTS[i % len(REQUESTS)]]
            for r in rs:
                attempt(ctx, n, v, (k, other), r, EXTRAS[i % 3])
    else:
        k = case[3]
        rest = keys[keys.index(k) + 1:]
        for i, (a, b) in enumerate(itertools.combinations(rest, 2)):
            attempt(ctx, n, v, (k, a, b), REQUESTS[i % len(REQUESTS)],
                    EXTRAS[i % 4])
    ctx.sample(case)
