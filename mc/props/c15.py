"""C15 missing data and types: every entry of every convention x an alphabet
of values of all types; every subset of missing entries up to two; both
together; all verification modes.  The verdict and the named entries are
compared with the reference verifier."""
import itertools

from .. import fixture, model, objs, ref
from ..engine import call

PROPERTY = "C15"
TECHNIQUE = ("exhaustive enumeration of entries x type alphabet and of "
             "missing subsets, real verification against a reference "
             "verifier")

IDENTITY = ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion")
CONVS = [(n, v) for (n, v, _) in fixture.SPEC]
VALUES = [
    ["s", ""], ["s", "text"], ["n", 1], ["n", 2.5], ["n", -1e300],
    ["bits2", ["nan"]], ["bits2", ["inf", "-inf"]], ["list", [1]],
    ["list", [1, 2, 3]], ["list", [[1, 2], [3, 4]]], ["arr", [[1]], "i4"],
    ["arr", [[1.0]], "f4"], ["arr", 3.0], ["arr", 3, "i8"],
    ["arr", [[1, 2]], "c16"], ["py", "complex"], ["py", "None"],
    ["py", "dict"], ["py", "object"], ["py", "complexarray"],
    ["U", ["a"]], ["U", [["a", "b"]]], ["U", "a"], ["S", ["a"]],
    ["S", [["a"], ["bb"]]], ["list", ["a"]], ["list", ["a", "b"]],
    ["list", ["a", 1]], ["n", "np"], ["ramp", [1, 1, 1, 1]],
    ["list", []], ["arr", [[1]], "u1"], ["arr", 3, "u8"], ["arr", [[1]], "?"],
    ["arr", [[1]], "f2"], ["arr", [[1]], "g"], ["arr", [[1]], ">f8"],
    ["arr", [[1]], ">u4"], ["arr", [[1]], "i1"], ["arr", [[1]], "M8[D]"],
    ["arr", [[1]], "m8[D]"], ["arr", [[1]], "O"], ["arr", 3, "?"],
]
CUSTOM = [["Mine", "double", "I", ["n", 1]], ["Mine", "double", "M", ["n", 1]],
          ["Mine", "string", "IS", ["s", "t"]],
          ["Mine", "string", "PS", ["U", ["a", "b"]]],
          ["GLOBAL_Mine", "attribute", None, ["s", "t"]],
          ["SourcePosition_Mine", "attribute", None, ["s", "t"]]]
MODES = [(h, m) for h in ("raise", "return", "print", "ignore")
         for m in ("write", "read")]


def values():
    return [v for v in VALUES if v != ["n", "np"] and v != ["list", []]]


def BOUNDS(tier):
    return {"values": len(values()), "conventions": len(CONVS),
            "entries": "each", "missing subsets": "up to 2 and all",
            "pairs of wrong entries": "adjacent entries" if tier != "thorough"
            else "all pairs", "custom entries": len(CUSTOM)}


def cases(tier):
    out = []
    for n, v in CONVS:
        out += [["types", n, v, k] for k in model.conv_of(n, v)
                if k not in IDENTITY]
        out += [["missing", n, v, k] for k in model.conv_of(n, v)
                if k not in IDENTITY]
        out.append(["all", n, v])
    out += [["custom", i] for i in range(len(CUSTOM))]
    return out


def build(ctx, name, version):
    obj, m = model.fresh(ctx.sf, name, version)
    obj.protected = False
    ctx.trace()
    return obj, model.conv_of(name, version)


def assess(ctx, obj, conv, custom, info):
    """All modes on a real object; `raise` is judged in detail."""
    for mode in ("write", "read"):
        ctx.step()
        before = ref.snapshot(obj)
        v = ref.verify(ref.entries(obj), conv, custom, mode)
        ref.judge(ctx, obj, v, mode, info)
        ctx.require(ref.snapshot(obj) == before, "verify changed the object",
                    **info)
        ctx.outcome("wrong type" if v.types else "missing" if v.missing
                    else "other issue" if v.error(mode) else "valid")
    return v


def run(case, ctx):
    kind = case[0]
    if kind == "types":
        _, n, ver, k = case
        obj, conv = build(ctx, n, ver)
        original = getattr(obj, k)
        names = list(conv)
        other = names[(names.index(k) + 1) % len(names)]
        for val in values():
            obj.protected = False
            setattr(obj, k, ref.make(val))
            info = {"object": [n, ver], "entry": k, "value": val}
            v = assess(ctx, obj, conv, {}, info)
            ctx.state(n, ver, k, val)
            others = [] if other in IDENTITY else [other]
            if ctx.tier == "thorough":
                others = [o for o in names if o not in IDENTITY and o > k]
            for o in others:
                keep = getattr(obj, o)
                second = [["s", "text"], ["n", 1], ["py", "None"]]
                if ctx.tier != "thorough":
                    second = [second[VALUES.index(val) % 3]]
                for val2 in second:
                    obj.protected = False
                    setattr(obj, o, ref.make(val2))
                    info2 = dict(info, second=[o, val2])
                    assess(ctx, obj, conv, {}, info2)
                obj.protected = False
                setattr(obj, o, keep)
            # the other ways to handle issues name the entry as well
            if k in v.types:
                out = call(obj.verify, "return", "write")
                ctx.require(out.ok and k in ref.offenders(
                    out.value or "", set(conv)), "verify(return) does not "
                    "name the entry: %r" % out, **info)
        obj.protected = False
        setattr(obj, k, original)
        assess(ctx, obj, conv, {}, {"object": [n, ver], "entry": k,
                                    "value": "original"})
    elif kind == "missing":
        _, n, ver, k = case
        names = [x for x in model.conv_of(n, ver) if x not in IDENTITY]
        rest = names[names.index(k) + 1:]
        subsets = [(k,)] + [(k, o) for o in rest]
        for i, gone in enumerate(subsets):
            missing(ctx, n, ver, gone, MODES if len(gone) == 1
                    or ctx.tier == "thorough" else [MODES[i % 8]],
                    None)
        for val in (["s", "x"], ["n", 1], ["py", "None"]):
            for o in rest[:4]:
                missing(ctx, n, ver, (k,), [MODES[0], MODES[2]], [o, val])
    elif kind == "all":
        _, n, ver = case
        conv = model.conv_of(n, ver)
        names = [x for x in conv if x not in IDENTITY]
        for gone in (names, [x for x in names if ref.mandatory(conv[x])],
                     [x for x in names if not ref.mandatory(conv[x])]):
            missing(ctx, n, ver, tuple(gone), MODES, None)
    else:
        name, typ, dims, first = CUSTOM[case[1]]
        for val in values():
            obj, conv = build(ctx, "GeneralFIR", "1.0")
            obj.add_variable(name, ref.make(first), typ, dims)
            obj.protected = False
            setattr(obj, name, ref.make(val))
            assess(ctx, obj, conv, {name: (typ, dims)},
                   {"custom": CUSTOM[case[1]], "value": val})
            ctx.state("custom", case[1], val)
    ctx.sample(case)


def missing(ctx, n, ver, gone, modes, wrong):
    """Delete entries (and set another one to a wrong type)."""
    conv = model.conv_of(n, ver)
    if wrong is not None and wrong[0] in gone:
        return
    for how, mode in modes:
        obj, _ = build(ctx, n, ver)
        for k in gone:
            obj.delete(k)
        if wrong is not None:
            setattr(obj, wrong[0], ref.make(wrong[1]))
        before = ref.snapshot(obj)
        v = ref.verify(ref.entries(obj), conv, {}, mode)
        info = {"object": [n, ver], "deleted": gone, "wrong": wrong,
                "how": [how, mode]}
        ctx.step()
        ctx.state(n, ver, gone, wrong, how, mode)
        if how == "raise":
            ref.judge(ctx, obj, v, mode, info)
            ctx.require(ref.snapshot(obj) == before,
                        "verify changed the object", **info)
            continue
        out = call(obj.verify, how, mode)
        ctx.require(out.ok, "verify raised %r" % out.exc, **info)
        after = ref.snapshot(obj)
        ctx.require(set(after) - set(before) == v.missing,
                    "entries added: %s instead of %s" % (
                        sorted(set(after) - set(before)),
                        sorted(v.missing)), **info)
        for k in before:
            ctx.require(after.get(k) == before[k], "%s changed" % k, **info)
        for k in v.missing:
            ctx.require(ref.squeezed(getattr(obj, k)) == ref.squeezed(
                ref.store(conv[k]["default"])), "%s is %r, not its default"
                % (k, getattr(obj, k)), **info)
        text = out.value if how == "return" else out.stdout
        named = ref.offenders(text or "", set(conv))
        if how == "ignore":
            ctx.require(not text and not out.warnings, "output although "
                        "issues are ignored", **info)
        else:
            want = v.types | v.missing
            ctx.require(named >= want, "verify(%s) names %s instead of %s"
                        % (how, sorted(named), sorted(want)), text=text,
                        **info)
        # now nothing is missing
        ent = ref.entries(obj)
        v2 = ref.verify(ent, conv, {}, mode)
        ctx.require(not v2.missing, "still missing %s" % sorted(v2.missing),
                    **info)
        ref.judge(ctx, obj, v2, mode, info)
