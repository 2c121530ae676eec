"""C16 dimensions: every variable takes every shape with up to four
dimensions of size 1..3 (0 dimensions: a number), pairs of variables and
custom variables with all dimension words up to length three; the verdict of
verification, the returned sizes and refusals are compared with the reference
verifier."""
import itertools

import numpy as np

from .. import model, objs, ref
from ..engine import call

PROPERTY = "C16"
TECHNIQUE = ("exhaustive enumeration of shapes for single variables, pairs "
             "and custom variables; real verification and sizes against a "
             "reference dimension calculus")

CONVS = [["GeneralFIR", "1.0"], ["SimpleFreeFieldHRIR", "1.0"],
         ["GeneralTF", "2.0"], ["SimpleFreeFieldHRTF", "1.0"],
         ["SimpleHeadphoneIR", "1.0"], ["FreeFieldHRIR", "1.0"],
         ["SingleRoomMIMOSRIR", "1.0"]]


def convs():
    have = {(n, v) for n, v in objs.WRITABLE}
    out = [c for c in CONVS if tuple(c) in have]
    out += [list(c) for c in objs.WRITABLE if "SOS" in c[0]]
    return out


def shapes(top, sizes=(1, 2, 3), least=0):
    for n in range(least, top + 1):
        yield from (list(s) for s in itertools.product(sizes, repeat=n))


def variables(conv):
    return [k for k, s in conv.items() if s["dimensions"] is not None]


FEW = [[1, 1], [1, 2], [2, 1], [2, 2], [1, 3], [3, 1], [1, 1, 2],
       [2, 1, 2], [2, 2, 2]]
MANY = ["MRNCP", "PQTUV", "IPQTU", "NMRPQ", "MRNIC", "PMRNQ", "MPQTUV",
        "PIQITIU", "PQTUVS", "MPQTUS", "IIIIPS", "PQTUVWXS"]
LETTERS = "MRNEICmpPQ"


WIDE = [{"M": 12, "R": 10, "N": 130, "E": 11},
        {"M": 100, "R": 2, "N": 20, "E": 1}]


def BOUNDS(tier):
    return {"conventions": convs(), "shapes": "all with 0..4 dimensions of "
            "size 1..3 (quick: size of the fourth below 3)", "start sizes": "all 1, and larger ones",
            "pairs": "all pairs of variables x %d shapes" % len(FEW)
            if tier != "thorough" else "all pairs of "
            "variables x shapes with 2..3 dimensions of size 1..3",
            "custom dimension words": "all over %s up to length %d" % (
                LETTERS, 3 if tier == "thorough" else 2),
            "longer dimension words": MANY,
            "sizes of several digits": WIDE}


def cases(tier):
    out = []
    for c in convs():
        conv = model.conv_of(*c)
        vs = variables(conv)
        out += [["single", c, k, start] for k in vs for start in (0, 1)]
        pairs = list(itertools.combinations(vs, 2))
        if tier != "thorough":
            d = {k for ks in objs.defining(conv).values() for k in ks}
            pairs = [p for p in pairs if p[0] in d or p[1] in d]
        out += [["pair", c, a, b] for a, b in pairs]
    top = 3 if tier == "thorough" else 2
    for n in range(1, top + 1):
        for w in itertools.product(LETTERS, repeat=n):
            out.append(["custom", "".join(w)])
    out += [["twocustom", a, b] for a in ("P", "PQ", "QP", "MP", "PM")
            for b in ("P", "QP", "PQ", "NQ", "MPS", "PS", "Q")]
    out += [["many", w] for w in MANY]
    out += [["strings", c] for c in convs()]
    out += [["wide", c, k] for c in convs() for k in (0, 1)]
    return out


def wide(c, which):
    """Sizes of several digits."""
    conv = model.conv_of(*c)
    sizes = {}
    for d in objs.defining(conv):
        normal = objs.allowed_sizes(c[0], conv, d, False)
        large = WIDE[which].get(d, 12)
        # (positions of receivers and emitters may be restricted)
        sizes[d] = normal[-1] if normal != [1, 2, 3] else large
    if conv["GLOBAL_DataType"]["default"] == "SOS":
        sizes["N"] = 600
    return sizes


def start(ctx, c, which):
    """Valid object with the smallest or with larger sizes."""
    conv = model.conv_of(*c)
    sizes = list(objs.size_space(c[0], c[1], True))
    case = {"conv": c, "sizes": sizes[-1 if which else 0]}
    ctx.trace()
    return objs.realise(ctx.sf, case), conv


def assess(ctx, obj, conv, custom, info, ask=True):
    """Verification and sizes of the current content."""
    ent = ref.entries(obj)
    v = ref.verify(ent, conv, custom, "write")
    ctx.step()
    ref.judge(ctx, obj, v, "write", info)
    bad = v.types or v.shapes or v.conflict
    ctx.outcome("refused" if bad else "accepted")
    ctx.state(sorted((k, np.shape(x)) for k, x in ent.items()
                     if not isinstance(x, str)), sorted(custom.items()))
    if not ask:
        return v
    letters = sorted(v.dims) + ["X", "m", "", "MR"]
    if ask == "one":
        letters = [letters[sum(np.size(x) for x in ent.values())
                           % len(letters)]]
    for d in letters:
        ctx.step()
        out = call(obj.get_dimension, d)
        if bad or d not in v.dims:
            ctx.require(out.raised(ValueError), "get_dimension(%r): %r "
                        "instead of ValueError" % (d, out), label=info,
                        issues=sorted(v.shapes | v.types))
        else:
            ctx.require(out.ok and out.value == v.dims[d]
                        and not isinstance(out.value, (float, bool)),
                        "get_dimension(%r): %r instead of %d" % (
                            d, out, v.dims[d]), label=info)
    ctx.step()
    out = call(lambda: obj.list_dimensions)
    if bad:
        ctx.require(out.raised(ValueError), "list_dimensions: %r instead of "
                    "ValueError" % out, label=info)
    else:
        ctx.require(out.ok, "list_dimensions raised %r" % out.exc,
                    label=info)
        got = {}
        for line in out.stdout.splitlines():
            w = line.split(" ")
            if len(w) > 2 and w[1] == "=":
                got[w[0]] = int(w[2])
        ctx.require(got == {k: int(n) for k, n in v.dims.items()},
                    "list_dimensions shows %s instead of %s" % (
                        got, v.dims), label=info)
    return v


def value(shape, spec, seed=1):
    if spec["type"] == "string":
        return objs.strings(tuple(shape), ["a", "bcd"])
    if not shape:
        return 1.5
    return np.arange(float(np.prod(shape))).reshape(shape) + seed


def usable(shape, spec):
    """1-D arrays are not used for multi-dimensional numeric data (they are
    rows or columns depending on the context)."""
    if spec["type"] == "double" and len(shape) == 1:
        return len(spec["dimensions"].split(", ")[0]) == 1
    return True


def run(case, ctx):
    kind = case[0]
    if kind == "single":
        _, c, k, which = case
        obj, conv = start(ctx, c, which)
        spec = conv[k]
        keep = getattr(obj, k)
        for shape in shapes(4):
            if not usable(shape, spec):
                continue
            if ctx.tier != "thorough" and len(shape) == 4 \
                    and shape[3] > 2 - which:
                continue
            info = {"object": c, "start": which, "entry": k, "shape": shape}
            setattr(obj, k, value(shape, spec))
            assess(ctx, obj, conv, {}, info, True if ctx.tier ==
                   "thorough" or len(shape) < 3 else "one")
        for bad in ("text" if spec["type"] == "double" else 5.0,
                    np.array([[1j]])):
            obj.protected = False
            setattr(obj, k, bad)
            assess(ctx, obj, conv, {}, {"object": c, "entry": k,
                                        "value": repr(bad)})
        setattr(obj, k, keep)
        assess(ctx, obj, conv, {}, {"object": c, "entry": k,
                                    "value": "original"})
    elif kind == "wide":
        _, c, which = case
        conv = model.conv_of(*c)
        obj = objs.realise(ctx.sf, {"conv": c, "sizes": wide(c, which)})
        ctx.trace()
        v = assess(ctx, obj, conv, {}, {"object": c, "wide": which})
        ctx.require(not v.shapes and not v.conflict, "sizes are not "
                    "permitted: %s" % v.shapes)
        for k in variables(conv):
            keep = getattr(obj, k)
            shape = np.shape(keep)
            for axis, n in enumerate(shape):
                for other in (n - 1, n + 1, 10 * n, n // 10, 1, 3, n % 128):
                    if not other or other == n:
                        continue
                    new = shape[:axis] + (other,) + shape[axis + 1:]
                    if np.prod(new) > 2e6:
                        continue
                    setattr(obj, k, value(new, conv[k]))
                    assess(ctx, obj, conv, {}, {
                        "object": c, "wide": which, "entry": k,
                        "shape": new}, "one")
            setattr(obj, k, keep)
            assess(ctx, obj, conv, {}, {"object": c, "entry": k,
                                        "value": "original"}, "one")
    elif kind == "pair":
        _, c, a, b = case
        obj, conv = start(ctx, c, 0)
        some = list(shapes(3, (1, 2, 3), 2)) if ctx.tier == "thorough" \
            else FEW
        for s in some:
            setattr(obj, a, value(s, conv[a]))
            for t in some:
                setattr(obj, b, value(t, conv[b], 50))
                assess(ctx, obj, conv, {}, {
                    "object": c, a: s, b: t}, ctx.tier == "thorough")
    elif kind == "custom":
        word = case[1]
        for which in (0, 1):
            obj, conv = start(ctx, ["GeneralFIR", "1.0"], which)
            for shape in shapes(3 if len(word) < 3 else 4,
                                (1, 2, 3) if len(word) < 3 else (1, 2)):
                if len(shape) == 1 and len(word) > 1:
                    continue
                if "Mine" in vars(obj):
                    obj.delete("Mine")
                out = call(obj.add_variable, "Mine", value(
                    shape, {"type": "double"}), "double", word)
                info = {"custom": word, "shape": shape, "start": which}
                ctx.require(out.ok, "add_variable raised %r" % out.exc,
                            **info)
                if ambiguous(word):
                    continue
                assess(ctx, obj, conv, {"Mine": ("double", word)}, info,
                       len(shape) < 3 and which == 0 or "one")
    elif kind == "twocustom":
        _, a, b = case
        for which in (0, 1) if ctx.tier == "thorough" else (0,):
            for s in shapes(2, (1, 2, 3), len(a) if len(a) > 1 else 0):
                for t in shapes(2, (1, 2, 3), 0 if len(b) == 1 else 2):
                    if len(t) == 1 and len(b) > 1:
                        continue
                    obj, conv = start(ctx, ["GeneralFIR", "1.0"], which)
                    kind_b = "string" if "S" in b else "double"
                    obj.add_variable("Mine", value(s, {"type": "double"}),
                                     "double", a)
                    obj.add_variable("Yours", value(t, {"type": kind_b}),
                                     kind_b, b)
                    assess(ctx, obj, conv, {"Mine": ("double", a),
                                            "Yours": (kind_b, b)},
                           {"first": [a, s], "second": [b, t],
                            "start": which}, which == 0 or "one")
    elif kind == "many":
        word = case[1]
        typ = "string" if "S" in word else "double"
        size = len(word.replace("S", ""))
        obj, conv = start(ctx, ["GeneralFIR", "1.0"], 1)
        for shape in shapes(size, (1, 2)):
            if len(shape) == 1 or len(shape) < size - 2 and 1 in shape:
                continue
            if "Mine" in vars(obj):
                obj.delete("Mine")
            out = call(obj.add_variable, "Mine", value(shape, {"type": typ}),
                       typ, word)
            info = {"custom": word, "shape": shape}
            ctx.require(out.ok, "add_variable raised %r" % out.exc, **info)
            assess(ctx, obj, conv, {"Mine": (typ, word)}, info, "one")
    else:
        _, c = case
        # string lengths in bytes define S
        texts = ["", "a", "abc", "\u00e9", "\u65e5\u672c", "x" * 30]
        obj, conv = start(ctx, c, 0)
        names = [k for k in conv if conv[k]["type"] == "string"]
        if not names:
            obj.add_variable("Mine", "", "string", "IS")
            names = ["Mine"]
        custom = {"Mine": ("string", "IS")} if names == ["Mine"] else {}
        for t in texts:
            for u in texts:
                for k in names:
                    setattr(obj, k, t if k == names[0] else u)
                assess(ctx, obj, conv, custom, {"object": c,
                                                "texts": [t, u]})
                for k in names:
                    setattr(obj, k, np.array([(t if k == names[0] else u)
                                              .encode("utf-8") + b"z"]))
                assess(ctx, obj, conv, custom, {"object": c,
                                                "bytes": [t, u]})
    ctx.sample(case)


def ambiguous(word):
    """A custom dimension twice in one word has no single size."""
    low = [x for x in word.upper() if x not in ref.STANDARD]
    return len(low) != len(set(low))
