"""C06 streaming: for every file of a bounded space every entry, every slice
of an alphabet, every dimension and a grammar of wrong names is requested
through the real SofaStream and compared with the file content."""
import copy
import itertools
import os
import pickle

import numpy as np

from .. import fixture, nc, objs, ref
from ..engine import call
from . import c03

PROPERTY = "C06"
TECHNIQUE = ("exhaustive enumeration of files x requests (entries, slices, "
             "dimensions, wrong names, pairs of requests) on the real stream")

EXTRA = [["Mine", "f8", "PQ", 5], ["Mine", "S1", "MS", "abc"],
         ["Data_Mine", "f8", "MR", 1], ["MineTwo", "f4", "MRN", 1],
         ["Min", "f8", "I", 1], ["Mine", "f8", "", 7],
         ["Data_IRX", "f8", "M", 3], ["Data", "f8", "I", 1], ["Source", "f8", "M", 3],
         ["SourcePosition_Type", "f8", "M", 3][:0]]
EXTRA = [e for e in EXTRA if e]
ATTRS = [["GLOBAL_Mine", "x"], ["GLOBAL_name", "n"], ["GLOBAL_Data", "d"],
         ["GLOBAL_Data_IR", "no variable"], ["GLOBAL_SourcePosition", "g"],
         ["GLOBAL_dimensions", "dd"], ["GLOBAL_Type", "ty"],
         ["GLOBAL_Units", "un"], ["GLOBAL_GLOBAL_X", "gg"],
         ["SourcePosition_Mine", "m"], ["SourcePosition_dtype", "m"],
         ["Data_IR_Units", "pascal"], ["Data_IR_name", "nm"],
         ["ListenerPosition_Other_Type", "xx"],
         ["SourcePosition_GLOBAL", "yy"]]


def flat(tier):
    out = []
    for n, v, _ in fixture.SPEC:
        for sizes in itertools.product((1, 2, 3), (1, 2), (1, 6)):
            if tier != "thorough" and sizes[0] == 3 and sizes[1] == 1:
                continue
            out.append({"conv": [n, v], "M": sizes[0], "R": sizes[1],
                        "N": sizes[2]})
        out.append({"conv": [n, v], "M": 12, "R": 11, "N": 18, "E": 10})
        out.append({"conv": [n, v], "N": 6, "order": "reversed"})
        out.append({"conv": [n, v], "N": 6, "type": "i4"})
        for how in nc.STORAGE:
            out.append({"conv": [n, v], "M": 2, "N": 6, "storage": how})
    base = ["GeneralFIR", "1.0"]
    for chars in ("T", "STRING", "s", "len*"):
        for conv in (base, ["SimpleHeadphoneIR", "1.0"]):
            out.append({"conv": conv, "M": 2, "N": 6, "chars": chars,
                        "extra": [["Mine", "S1", "MS", "abc"],
                                  ["Num", "f8", "MP", 3]]})
    for size in ({"M": 1, "N": 70000}, {"M": 3000, "N": 20},
                 {"M": 1, "R": 300}, {"M": 1, "E": 1025}):
        out.append({"conv": base, **size})
    for e in EXTRA:
        out.append({"conv": base, "extra": [e]})
        out.append({"conv": base, "extra": [e], "order": "reversed",
                    "extra_attrs": [["Data_IR_Units", "pascal"]]})
        for a in ATTRS:
            out.append({"conv": base, "extra": [e], "extra_attrs": [a]})
    for a, b in itertools.combinations(ATTRS, 2):
        out.append({"conv": base, "extra_attrs": [a, b]})
    for a, b in itertools.combinations(EXTRA, 2):
        if a[0] != b[0]:
            out.append({"conv": base, "extra": [a, b]})
    for k, s in objs.conv_of(*base).items():
        if not k.startswith("GLOBAL_SOFAConv"):
            out.append({"conv": base, "drop": [k]})
        if s["type"] == "double":              # missing data
            for which in (0, 1):
                out.append({"conv": base, "holes": k, "which": which, "M": 2,
                            "N": 6})
    return out


def BOUNDS(tier):
    return {"files": len(flat(tier)),
            "blocks of one stream on a changing file": "all sequences of %d "
            "of %d contents, alone and around a second stream" % (
                4 if tier == "thorough" else 3, len(VERSIONS)), "slices": "all combinations of "
            "[:], [0], [-1], [1:], [::2], [:1] per axis",
            "wrong names": "prefixes, suffixes, case and delimiter variants "
            "of every name in the file"}


def cases(tier):
    c = flat(tier)
    depth = 4 if tier == "thorough" else 3
    return [c[i:i + 12] for i in range(0, len(c), 12)] + [
        {"blocks": list(p)} for p in itertools.product(
            range(len(VERSIONS)), repeat=depth)]


# contents of a file that changes between the blocks of one stream object
VERSIONS = [{"conv": ["GeneralFIR", "1.0"], "M": 1, "N": 2},
            {"conv": ["GeneralFIR", "1.0"], "M": 3, "N": 1,
             "extra": [["Mine", "f8", "PQ", 5]],
             "extra_attrs": [["GLOBAL_Mine", "x"]]},
            {"conv": ["SimpleFreeFieldHRTF", "1.0"], "M": 2, "N": 6, "R": 2},
            {"conv": ["GeneralFIR", "1.0"], "M": 1, "N": 2, "text": "other",
             "drop": ["GLOBAL_Comment"]}]


def blocks(ctx, versions):
    """One stream object is used again and again for a file that is replaced,
    while another stream reads another file."""
    sf = ctx.sf
    path, other = [os.path.join(ctx.dir, n) for n in ("s.sofa", "o.sofa")]
    contents = [c03.build(v) for v in VERSIONS]
    nc.write(other, *contents[2])
    stream, second = sf.SofaStream(path), sf.SofaStream(other)
    ctx.state("blocks", tuple(versions))
    nc.write(path, *contents[versions[0]])
    for s in (sf.SofaStream(path), copy.copy(stream), copy.deepcopy(stream),
              pickle.loads(pickle.dumps(stream))):
        for name in ("Data_IR", "GLOBAL_Title", "SourcePosition", "Nothing",
                     "_file", "_convention", "__array__", "__len__"):
            ctx.step()
            out = call(getattr, s, name)
            ctx.require(out.raised(AttributeError), "access before opening: "
                        "%r" % out, entry=name, what=versions)
        for method in ("list_dimensions", "inspect"):
            ctx.step()
            out = call(lambda: getattr(s, method)() if method == "inspect"
                       else getattr(s, method))
            ctx.require(out.raised(AttributeError), "%s before opening: %r"
                        % (method, out), what=versions)
        with s:
            compare(ctx, s, *contents[versions[0]], what=versions)
    for nested in (False, True):
        for v in versions:
            attrs, dims, items = contents[v]
            nc.write(path, attrs, dims, items)
            with stream as s:
                if nested:
                    with second as o:
                        compare(ctx, s, *contents[v], what=versions)
                        compare(ctx, o, *contents[2], what=versions)
                        compare(ctx, s, *contents[v], what=versions)
                compare(ctx, s, *contents[v], what=versions)
        ctx.trace()
    for p in (path, other):
        os.remove(p)


def compare(ctx, s, attrs, dims, items, what):
    for d in set(dims) | {"P", "Q", "X"}:
        ctx.step()
        out = call(s.get_dimension, d)
        ok = out.ok and out.value == dims[d] if d in dims else \
            out.raised(ValueError)
        ctx.require(ok, "dimension %s is %r" % (d, out), what=what)
    for a in list(attrs) + ["Mine", "Comment"]:
        ctx.step()
        out = call(getattr, s, "GLOBAL_" + a)
        ok = out.ok and out.value == attrs[a] if a in attrs else \
            out.raised(AttributeError)
        ctx.require(ok, "GLOBAL_%s is %r" % (a, out), what=what)
    names = {it[0].replace(".", "_"): it for it in items}
    for k in list(names) + ["Mine", "Data_IR", "Data_Real"]:
        ctx.step()
        out = call(getattr, s, k)
        if k not in names:
            ctx.require(out.raised(AttributeError), "%s is %r" % (k, out),
                        what=what)
            continue
        ctx.require(out.ok, "%s raised %r" % (k, out.exc), what=what)
        if names[k][1] == "S1":
            out.value.set_auto_chartostring(False)
            out.value.set_auto_mask(False)
        ctx.require(same(out.value[...], names[k][3]), "values of " + k,
                    what=what)


SLICES = [slice(None), 0, -1, slice(1, None), slice(None, None, 2),
          slice(None, 1)]


def same(a, b):
    if np.ma.is_masked(b):                  # missing data
        return np.ma.isMaskedArray(a) and a.dtype.newbyteorder("=") == b.dtype and \
            c03.masked_image(np.ma.atleast_1d(a)) == c03.masked_image(
                np.ma.atleast_1d(b))
    a, b = np.ma.getdata(np.asarray(a)), np.asarray(b)
    if a.dtype.byteorder == ">":            # (as stored)
        a = a.astype(a.dtype.newbyteorder("="))
    return a.shape == b.shape and a.dtype == b.dtype and \
        a.tobytes() == b.tobytes()


def wrong_names(names):
    out = {"Nothing", "GLOBAL_Nothing", "GLOBAL_", "Data", "Data_",
           "SourcePosition_Nothing", "Nothing_Type", "Data_IR_Nothing"}
    for n in names:
        out |= {n[:-1], n + "x", n + "_", n.lower(), n + "_Type",
                "GLOBAL_" + n, n.replace("_", "", 1), "X" + n,
                n.replace("_", "__", 1)}
    return out


def stored(name, attrs, variables):
    """Is (or may) `name` be a way to address something in the file?"""
    if name.startswith("GLOBAL_"):
        return name[7:] in attrs
    if name in attrs:
        return True              # global attribute without the prefix
    for k, it in variables.items():
        if name == k or (name.startswith(k + "_")
                         and name[len(k) + 1:] in it[4]):
            return True
    return False


def run(group, ctx):
    if isinstance(group, dict):
        return blocks(ctx, group["blocks"])
    sf = ctx.sf
    path = os.path.join(ctx.dir, "s.sofa")
    reserved = {n for n in dir(sf.SofaStream)}
    for case in group:
        attrs, dims, items = c03.build(case)
        nc.write(path, attrs, dims, items,
                 **nc.STORAGE.get(case.get("storage"), {}))
        variables = {it[0].replace(".", "_"): it for it in items}
        ctx.state(sorted(attrs.items()), sorted(dims.items()),
                  [(k, it[3].shape, sorted(it[4].items()))
                   for k, it in variables.items()])
        with open(path, "rb") as f:
            raw = f.read()

        def session(s):
            for k, v in attrs.items():
                get(s, "GLOBAL_" + k, v)
            for k, it in variables.items():
                out = call(getattr, s, k)
                ctx.step()
                ctx.require(out.ok, "%s raised %r" % (k, out.exc), what=case)
                var, data = out.value, it[3]
                if it[1] == "S1":
                    var.set_auto_chartostring(False)
                    var.set_auto_mask(False)     # NUL is the fill character
                ctx.require(tuple(var.shape) == tuple(data.shape),
                            "%s has shape %s instead of %s" % (
                                k, var.shape, data.shape), what=case)
                ctx.require(getattr(var, "dimensions", None) == tuple(it[2]),
                            "%s has dimensions %s" % (
                                k, getattr(var, "dimensions", None)),
                            what=case)
                for sl in itertools.product(SLICES, repeat=data.ndim) \
                        if data.ndim < 3 else [
                            t for t in itertools.product(
                                SLICES, repeat=data.ndim)
                            if sum(x == slice(None) for x in t)
                            >= data.ndim - (2 if ctx.tier == "thorough"
                                            else 1)]:
                    sl = sl if sl else (Ellipsis,)
                    got = var[sl]
                    ctx.step()
                    ctx.require(same(got, data[sl]), "%s[%s] is %r instead of"
                                " %r" % (k, sl, got, data[sl]), what=case)
                for a, v in it[4].items():
                    get(s, "%s_%s" % (k, a), v)
            for d, n in dims.items():
                out = call(s.get_dimension, d)
                ctx.step()
                ctx.require(out.ok and out.value == n,
                            "dimension %s is %r instead of %d" % (d, out, n),
                            what=case)
            for d in ("X", "m", "MR", "", "Mine", "GLOBAL", "None"):
                if d not in dims:
                    ctx.step()
                    out = call(s.get_dimension, d)
                    ctx.require(out.raised(ValueError),
                                "unknown dimension %r: %r" % (d, out),
                                what=case)
            names = list(variables) + ["GLOBAL_" + a for a in attrs] + [
                "%s_%s" % (k, a) for k, it in variables.items()
                for a in it[4]]
            for n in sorted(wrong_names(names)):
                if not n or n in reserved or stored(n, attrs, variables):
                    continue
                ctx.step()
                out = call(getattr, s, n)
                ctx.require(out.raised(AttributeError),
                            "%r is not in the file but: %r" % (n, out),
                            what=case)
            # requests do not influence each other
            for a, b in itertools.permutations(
                    ["GLOBAL_Title", "SourcePosition", "Data_IR",
                     "SourcePosition_Type", "Nothing"], 2):
                for n in (a, b, a):
                    if not stored(n, attrs, variables):
                        ctx.require(call(getattr, s, n).raised(
                            AttributeError), "%s after %s" % (n, a))
                    elif n in variables:
                        ctx.require(same(getattr(s, n)[...],
                                         variables[n][3]),
                                    "%s after %s" % (n, a), what=case)
                    else:
                        v = attrs[n[7:]] if n.startswith("GLOBAL_") else \
                            variables["SourcePosition"][4]["Type"]
                        get(s, n, v)

        def get(s, name, value):
            ctx.step()
            out = call(getattr, s, name)
            ctx.require(out.ok and isinstance(out.value, str)
                        and out.value == value,
                        "%s is %r instead of %r" % (name, out, value),
                        what=case)

        stream = sf.SofaStream(path)
        with stream as s:
            session(s)
        with open(path, "rb") as f:
            ctx.require(f.read() == raw, "streaming changed the file",
                        what=case)
        ctx.trace()
        ctx.outcome("files")
        ctx.sample(case)
    os.remove(path)
