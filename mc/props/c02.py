"""C02 layout: the file of every object of the bounded space, as seen by the
netCDF library alone, is compared with the layout the object declares."""
import os

import netCDF4
import numpy as np

from .. import model, objs, ref
from ..engine import call

PROPERTY = "C02"
TECHNIQUE = ("exhaustive enumeration of a bounded space of objects; each file "
             "written by the real code is dumped with netCDF4 and compared "
             "with the layout of the reference model")
ASSUMPTIONS = ["netCDF4 returns what is in a file"]
FILL = netCDF4.default_fillvals["f8"]


def BOUNDS(tier):
    return {"objects": sum(len(g) for g in objs.space(tier)),
            "conventions": len(objs.WRITABLE),
            "custom entries": "all singles and pairs of the alphabet"}


def cases(tier):
    return objs.space(tier)


def spec_of(case):
    spec = {k: (s["type"], s["dimensions"])
            for k, s in objs.conv_of(*case["conv"]).items()}
    for k, (t, d) in objs.custom_of(case).items():
        spec.setdefault(k, (t, d))
    return spec


def check_layout(ctx, dump, ent, v, spec, reported, **info):
    """Compare a file dump with entries `ent` of the saved object."""
    def bad(msg):
        ctx.fail("layout of the file: " + msg, **info)

    if dump["groups"]:
        bad("contains groups")
    dims = dict(dump["dims"])
    want = dict(v.dims)
    if want["S"] == 0 and dims.get("S") == 1:
        dims["S"] = 0
    if dims != want:
        bad("dimensions %s" % ref.diff(want, dims))
    rep = {k: reported.get(k) for k in want}
    if rep != want:
        bad("object reports other dimensions %s" % ref.diff(want, rep))

    attrs, per_var, variables = {}, {}, {}
    for k, val in ent.items():
        if spec[k][0] == "attribute":
            if k.startswith("GLOBAL_"):
                attrs[k[7:]] = val
            else:
                var, a = k.rsplit("_", 1)
                per_var.setdefault(var, {})[a] = val
        else:
            variables[k] = val
    if dump["attrs"] != attrs:
        bad("global attributes %s" % ref.diff(attrs, dump["attrs"]))
    names = {k.replace("Data_", "Data.", 1) if k.startswith("Data_") else k: k
             for k in variables}
    if set(dump["vars"]) != set(names):
        bad("variables %s" % sorted(set(dump["vars"]) ^ set(names)))
    for name, k in names.items():
        d = dump["vars"][name]
        typ, dim = spec[k]
        have = "".join(d["dims"])
        combos = dim.upper().split(", ")
        if have not in combos:
            bad("%s has dimensions %s instead of %s" % (name, have, combos))
        if len(d["dims"]) != len(have):
            bad("%s dimension names %s" % (name, d["dims"]))
        size = tuple(dump["dims"][c] for c in have)
        if d["shape"] != size:
            bad("%s shape %s instead of %s" % (name, d["shape"], size))
        if d["attrs"] != per_var.get(k, {}):
            bad("attributes of %s: %s" % (
                name, ref.diff(per_var.get(k, {}), d["attrs"])))
        val = variables[k]
        if typ == "double":
            if d["dtype"] != "float64":
                bad("%s has type %s" % (name, d["dtype"]))
            # (missing data are the fill value of netCDF)
            a = np.asarray(np.ma.filled(
                np.ma.asarray(val).astype("<f8"), FILL)
                if np.ma.is_masked(val) else val)
            # place the values explicitly index by index
            shape = a.shape
            if a.ndim == 1 and len(size) > 1:
                shape = (1,) + shape
            shape = shape + (1,) * (len(size) - len(shape))
            if len(size) == 1:
                shape = (a.size,)
            a = a.reshape(shape).astype("<f8")
            if a.shape != size:
                bad("%s was written with shape %s instead of %s" % (
                    name, size, a.shape))
            got = np.frombuffer(d["bytes"], "<f8").reshape(size)
            for idx in np.ndindex(*size):
                if got[idx].tobytes() != a[idx].tobytes():
                    bad("%s%s is %r instead of %r" % (
                        name, list(idx), got[idx], a[idx]))
        else:
            if d["dtype"] != "|S1":
                bad("%s has type %s" % (name, d["dtype"]))
            width = size[-1]
            raw = d["bytes"]
            texts = [raw[i * width:(i + 1) * width].rstrip(b"\0")
                     for i in range(int(np.prod(size[:-1], dtype=int)))]
            want_t = [t if isinstance(t, bytes) else t.encode("utf-8")
                      for t in ref.text_items(val)]
            if texts != want_t:
                bad("%s contains %r instead of %r" % (name, texts, want_t))
            ashape = ref.stripped(np.shape(val)) if not isinstance(
                val, str) else ()
            if ref.stripped(size[:-1]) != ashape:
                bad("%s has shape %s instead of %s" % (
                    name, size[:-1], np.shape(val)))


def run(group, ctx):
    sf = ctx.sf
    path = os.path.join(ctx.dir, "a.sofa")
    for case in group:
        obj, ent, v = objs.content(sf, case)
        assert not v.error("write"), (case, v.__dict__)
        ctx.state(case["conv"], ref.image(ent))
        ctx.step()
        out = call(sf.write_sofa, path, obj,
                   **({"compression": case["compression"]}
                      if "compression" in case else {}))
        ctx.require(out.ok, "writing raised %r" % out.exc, what=case)
        dump = model.file_dump(path)
        reported = {d: call(obj.get_dimension, d).value for d in v.dims}
        check_layout(ctx, dump, ent, v, spec_of(case), reported, what=case)
        ctx.trace()
        ctx.step(len(dump["vars"]))
        ctx.outcome("variables", len(dump["vars"]))
        ctx.sample(case)
    if os.path.exists(path):
        os.remove(path)
