"""C03 reading: files are written with netCDF4 directly (not with the package)
for every element of a bounded space of file contents and read with the real
readers."""
import itertools
import os
import shutil

import netCDF4
import numpy as np

from .. import fixture, nc, objs, ref
from ..engine import call

PROPERTY = "C03"
TECHNIQUE = ("exhaustive enumeration of a bounded space of files (entry "
             "subsets, orders, types, sizes, customs, missing data), each "
             "read by the real readers and compared with the stored content")

ALL = [(n, v) for (n, v, d) in fixture.SPEC]

def BOUNDS(tier):
    return {"files": len(flat(tier)), "conventions": len(ALL),
            "per convention": "each entry left out, each pair of optional "
            "entries, orders, custom entries, integer types, missing data"}


# a file is described by a JSON case; `build` gives its content
def build(case):
    name, version = case["conv"]
    conv = objs.conv_of(name, version) if (name, version) in ALL \
        else objs.conv_of("GeneralFIR", "1.0")
    M, N = case.get("M", 2), case.get("N", 6)
    sizes = {"M": M, "R": case.get("R", 1), "N": N, "E": case.get("E", 1),
             "C": 3, "I": 1}
    attrs, variables, order = {}, {}, []
    width = 8
    start = 0
    for k, s in conv.items():
        if k in case.get("drop", ()):
            continue
        if s["type"] == "attribute":
            val = s["default"]
            if k == "GLOBAL_SOFAConventions":
                val = case.get("as", name)
            elif k == "GLOBAL_SOFAConventionsVersion":
                val = case.get("asversion", version)
            elif k in case.get("change", {}):
                val = case["change"][k]
            elif val == "":
                val = case.get("text", "text of " + k)
            if k.startswith("GLOBAL_"):
                attrs[k[7:]] = val
            else:
                var, a = k.rsplit("_", 1)
                if var in variables:
                    variables[var][4][a] = val
        else:
            combo = s["dimensions"].upper().split(", ")[
                case.get("combo", 0) % len(s["dimensions"].split(", "))]
            shape = [sizes[c] for c in combo if c != "S"]
            n = int(np.prod(shape, dtype=int))
            if s["type"] == "string":
                texts = ["t%d" % i if i else "" for i in range(n)]
                if case.get("text"):
                    texts = [case["text"]] + texts[1:]
                data = ("text", texts, shape)
                typ = "S1"
            else:
                data = (np.arange(n, dtype=float) * 1.25 + start
                        ).reshape(shape)
                typ = case.get("type", "f8")
                start += 50
                data = data.astype(typ)
                if k == case.get("holes"):
                    data = np.ma.masked_array(data, np.arange(n).reshape(
                        shape) % 2 == case.get("which", 0))
            variables[k] = [k.replace("Data_", "Data."), typ, combo, data,
                            {}, None]
    dims = dict(sizes)
    for nm, typ, combo, val in case.get("extra", ()):
        shape = []
        for c in combo:
            if c not in dims and c != "S":
                dims[c] = 4
        shape = [dims[c] for c in combo if c != "S"]
        n = int(np.prod(shape, dtype=int))
        if typ == "S1":
            data = ("text", [val] * n, shape)
        else:
            data = (np.arange(n) + val).reshape(shape).astype(typ)
        variables[nm] = [nm.replace("Data_", "Data."), typ, combo, data, {},
                         None]
    for nm, val in case.get("extra_attrs", ()):
        if nm.startswith("GLOBAL_"):
            attrs[nm[7:]] = val
        else:
            var = max((v for v in variables if nm.startswith(v + "_")),
                      key=len)
            variables[var][4][nm[len(var) + 1:]] = val
    items = list(variables.values())
    if case.get("order") == "reversed":
        items = items[::-1]
        attrs = dict(list(attrs.items())[::-1])
    elif case.get("order") == "rotated":
        items = items[3:] + items[:3]
    texts = [t for it in items if isinstance(it[3], tuple) for t in it[3][1]]
    width = max([len(t.encode("utf-8")) for t in texts] + [1])
    dims["S"] = width
    for it in items:
        if isinstance(it[3], tuple):
            it[3] = nc.chars(it[3][1], it[3][2], width)
    chars = case.get("chars")
    if chars:                    # another name of the dimension of characters
        del dims["S"]
        # (an own dimension per variable in case of *)
        for n, it in enumerate(items):
            if it[1] == "S1":
                last = chars.replace("*", str(n))
                dims.setdefault(last, width)
                it[2] = list(it[2][:-1]) + [last]
    for n, (nm, val) in enumerate(case.get("letters", ())):
        # a variable that holds a single character
        items.append([nm, "S1", "", np.array(val.encode(), "S1"), {}, None])
    return attrs, dims, items


def expected(attrs, items):
    """Entries the object must contain: name -> ("text"/"num"/"masked", …)"""
    out = {"GLOBAL_" + k: attribute(v) for k, v in attrs.items()}
    for name, typ, dims, data, va, _ in items:
        k = name.replace(".", "_")
        for a, v in va.items():
            out["%s_%s" % (k, a)] = attribute(v)
        if typ == "S1":
            data = np.atleast_1d(data)
            shape = tuple(s for s in data.shape[:-1] if s != 1)
            w = data.shape[-1]
            raw = data.tobytes()
            texts = tuple(raw[i:i + w].rstrip(b"\0").decode("utf-8")
                          for i in range(0, len(raw), w))
            out[k] = ("text", shape, texts)
        elif np.ma.is_masked(data):
            out[k] = masked_image(data)
        else:
            out[k] = ref.squeezed(data)
    return out


def attribute(v):
    if isinstance(v, dict):
        v = np.array(v["array"])
    return ("text", (), (v,)) if isinstance(v, str) else ref.squeezed(v)


def masked_image(a):
    shape = tuple(s for s in a.shape if s != 1)
    m = np.ma.getmaskarray(a).ravel()
    vals = np.ma.getdata(a).ravel()
    return ("masked", shape, tuple(
        None if mm else float(vv) for mm, vv in zip(m, vals)))


def image_of(value):
    if np.ma.is_masked(value):
        return masked_image(np.ma.atleast_1d(value))
    return ref.squeezed(value)


def flat(tier):
    deep = tier == "thorough"
    out = []
    for n, v in ALL:
        conv = objs.conv_of(n, v)
        c = [n, v]
        small = {"N": 6, "M": 2}
        for sizes in itertools.product((1, 2), (1, 2), (1, 6)):
            for combo in (0, 1):
                out.append({"conv": c, "M": sizes[0], "R": sizes[1],
                            "N": sizes[2], "combo": combo,
                            "E": 4 if n == "FreeFieldHRIR" else 1})
        out.append({"conv": c, "M": 12, "R": 11, "N": 132, "E": 10})
        out.append({"conv": c, "M": 130, "R": 2, "N": 6, "combo": 1})
        for how in nc.STORAGE:
            for more in ({}, {"type": "f4"}, {"type": "i2"}, {"M": 5}):
                out.append({"conv": c, "storage": how, **small, **more,
                            **({"raw": True} if "type" in more else {})})
        out.append({"conv": c, "order": "reversed", **small})
        out.append({"conv": c, "order": "rotated", **small})
        for typ in ("f4", "i4", "i2", "i8", "u2", "i1"):
            out.append({"conv": c, "type": typ, **small, "raw": True})
        entries = list(conv)
        for k in entries:                     # each entry left out
            if k in ("GLOBAL_SOFAConventions",
                     "GLOBAL_SOFAConventionsVersion"):
                continue
            drop = [k] + [d for d in entries if d.startswith(k + "_")]
            out.append({"conv": c, "drop": drop, **small})
        opt = [k for k in entries if not ref.mandatory(conv[k])]
        if deep or len(opt) < 12:
            for a, b in itertools.combinations(opt, 2):
                drop = [a, b] + [d for d in entries if d.startswith(
                    (a + "_", b + "_"))]
                out.append({"conv": c, "drop": drop, **small})
        out.append({"conv": c, "drop": opt, **small})
        changes = []                          # other attributes
        for k in entries:
            if conv[k]["type"] == "attribute" and k not in (
                    "GLOBAL_SOFAConventions",
                    "GLOBAL_SOFAConventionsVersion"):
                changes.append(k)
                for text in ("other \u00e9", " ", "Metre"):
                    out.append({"conv": c, "change": {k: text}, **small})
        out.append({"conv": c, "change": {
            k: "text %d" % i for i, k in enumerate(changes)}, **small})
        for case in objs.changed_attributes(c, deep) \
                if (n, v) in objs.WRITABLE else ():
            out.append({"conv": c, "change": {
                a: b[1] for a, b in case["set"]}, **small})
        for k in entries:                     # missing data
            if conv[k]["type"] == "double":
                for which in (0, 1):
                    out.append({"conv": c, "holes": k, "which": which,
                                "raw": True, **small})
    for how in nc.STORAGE:                    # missing data
        for conv, holes in ((["GeneralFIR", "1.0"], "Data_IR"),
                            (["GeneralTF", "2.0"], "SourcePosition"),
                            (["GeneralFIR", "1.0"], "Data_Delay")):
            for typ in "f8", "f4", "i4", "i2":
                for which in (0, 1):
                    out.append({"conv": conv, "holes": holes, "raw": True,
                                "which": which, "storage": how, "type": typ,
                                "N": 6, "M": 2})
    # custom content
    base = ["GeneralFIR", "1.0"]
    extras = [["Mine", "f8", "MC", 5], ["Mine", "f8", "M", 5],
              ["Mine", "f8", "I", 5], ["Mine", "f8", "P", 5],
              ["Mine", "f8", "PQ", 5], ["Mine", "f8", "MPN", 5],
              ["Mine", "S1", "MS", "abc"], ["Mine", "S1", "IS", "abc"],
              ["Mine", "S1", "PS", "\u00e9"], ["Mine", "f4", "MR", 2],
              ["Mine", "i4", "M", 2], ["Data_Mine", "f8", "MR", 1],
              ["ListenerView", "f8", "IC", 0], ["Mine", "f8", "", 7],
              ["Mine", "f8", "MRNE", 1]]
    attrs = [("GLOBAL_Mine", "x"), ("GLOBAL_Mine", ""),
             ("GLOBAL_Mine", "\u65e5"), ("GLOBAL_name", "n"),
             ("GLOBAL_dimensions", "d"), ("GLOBAL_close", "c"),
             ("GLOBAL_Data", "x"),
             ("SourcePosition_Mine", "m"), ("SourcePosition_dtype", "m"),
             ("SourcePosition_Description", "\u00e9"),
             ("Data_IR_Units", "pascal"), ("Data_IR_ChannelOrdering", "acn"),
             ("ListenerPosition_name", "nm"), ("GLOBAL_DateModified", "x"),
             ("SourcePosition__Mine", "p"), ("SourcePosition_a_b", "q"),
             ("GLOBAL_a_b", "r"), ("SourcePosition_Encoding", "utf-8")]
    for e in extras:
        out.append({"conv": base, "extra": [e]})
        for a in attrs:
            out.append({"conv": base, "extra": [e], "extra_attrs": [a]})
        out.append({"conv": base, "extra": [e], "extra_attrs": [
            [e[0] + "_Units", "u"], [e[0] + "_name", "w"]]})
    for a, b in itertools.combinations(extras, 2):
        if a[0] != b[0]:
            out.append({"conv": base, "extra": [a, b]})
        else:
            out.append({"conv": base, "extra": [a, ["Other"] + b[1:]]})
    for a, b in itertools.combinations(attrs, 2):
        out.append({"conv": base, "extra_attrs": [a, b]})
    for t in objs.TEXTS:
        if t:
            for conv in (base, ["SimpleHeadphoneIR", "1.0"]):
                out.append({"conv": conv, "text": t})
    for size in ({"M": 1, "N": 70000}, {"M": 3000, "N": 20},
                 {"M": 1, "R": 300}, {"M": 1, "E": 1025}):
        out.append({"conv": base, **size})
        out.append({"conv": base, "raw": True, "type": "i4", **size})
    for n in (127, 128, 255, 256, 1000, 5000):
        t = "".join(chr(97 + i % 26) for i in range(n - 1)) + "\u00e9"
        for conv in (base, ["SimpleHeadphoneIR", "1.0"]):
            out.append({"conv": conv, "text": t, "M": 11})
    words = [["Mine", "S1", "MS", "abc"], ["More", "S1", "PQS", "\u00e9"],
             ["Last", "S1", "S", "text"], ["Num", "f8", "MP", 3]]
    for conv in (base, ["SimpleHeadphoneIR", "1.0"], ["GeneralTF", "2.0"]):
        for chars in ("T", "STRING", "s", "m", "P9", "len*", "string_*",
                      "NameStrLen"):
            for e in [[w] for w in words] + [words]:
                for M in (1, 2, 4):
                    out.append({"conv": conv, "M": M, "N": 6, "extra": e,
                                "chars": chars})
        for val in "a", " ":
            out.append({"conv": conv, "letters": [["Letter", val]]})
            out.append({"conv": conv, "letters": [["Letter", val]],
                        "extra": words})
    # attributes that are not texts
    for k in ("GLOBAL_Title", "GLOBAL_Version", "SourcePosition_Units",
              "GLOBAL_DataType", "N_Units", "GLOBAL_Mine"):
        for val in (3, 2.5, -1.0, [1, 2], [1.5, 2.0, 3.0], 10 ** 9,
                    ["a", "bc"]):
            conv = ["GeneralTF", "2.0"]
            out.append({"conv": conv, "change": {k: val}, "raw": True,
                        "odd": True, **({"extra_attrs": [[k, val]]}
                                        if k == "GLOBAL_Mine" else {})})
    # no convention
    for drop in (["GLOBAL_SOFAConventions"], ["GLOBAL_SOFAConventionsVersion"],
                 ["GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion"]):
        for conv in (base, ["SimpleHeadphoneIR", "1.0"]):
            out.append({"conv": conv, "drop": drop, "invalid": True})
    # unknown conventions and versions
    for nm, ver in (("GeneralFIR", "9.0"), ("Unknown", "1.0"),
                    ("GeneralFI", "1.0"), ("generalfir", "1.0"),
                    ("GeneralFIR", "1"), ("", ""), ("GeneralFIR", ""),
                    ("GeneralFIR-E", "1.0"), ("GeneralTF", "3.0"),
                    ("GeneralFIR_1.0", "1.0"), ("SOFA", "2.1")):
        out.append({"conv": base, "as": nm, "asversion": ver,
                    "invalid": True})
        out.append({"conv": base, "as": nm, "asversion": ver, "invalid": True,
                    "extra": [["Mine", "f8", "P", 1]]})
    return out


def cases(tier):
    c = flat(tier)
    out = [c[i:i + 16] for i in range(0, len(c), 16)]
    return out + [[{"replaced": how, "reader": r, "order": order}]
                  for how in ("overwritten", "moved", "edited", "folder",
                              "link")
                  for r in ("netcdf", "verify=False", "auto", "stream")
                  for order in ("ABA", "ABBA", "AAB")] + [
        [{"conv": ["GeneralFIR", "1.0"], "reserved": n, **e}]
        for n in RESERVED for e in reserved(n)]


# names that the objects use themselves
RESERVED = ("copy", "verify", "info", "inspect", "delete", "protected",
            "get_dimension", "list_dimensions", "add_variable", "add_missing",
            "add_attribute", "upgrade_convention", "__class__", "__dict__",
            "__init__", "_convention", "_custom", "_dimensions", "_api",
            "_protected", "_read_only_attr", "_mine")


def reserved(name):
    out = [{"extra": [[name, typ, dims, val]]} for typ, dims, val in (
        ("f8", "M", 1), ("f8", "I", 1), ("S1", "MS", "a"))]
    var, _, attr = name.rpartition("_")
    if var and attr and not name.startswith("_"):
        out.append({"extra": [[var, "f8", "M", 1]],
                    "extra_attrs": [[name, "x"]]})
        out.append({"extra": [[var, "S1", "MS", "a"], ["Mine", "f8", "M", 1]],
                    "extra_attrs": [[name, "1"]]})
    # (attributes of the file can not meet the names)
    out.append({"extra_attrs": [["GLOBAL_" + name, "x"]], "fine": True})
    return out


def refused(ctx, case):
    """Data that would replace the methods of the object."""
    sf = ctx.sf
    path = os.path.join(ctx.dir, "reserved.sofa")
    attrs, dims, items = build(case)
    nc.write(path, attrs, dims, items)
    with open(path, "rb") as f:
        raw = f.read()
    want = expected(attrs, items)
    for label, reader in (
            ("netcdf", lambda: sf.read_sofa_as_netcdf(path)),
            ("verify=False", lambda: sf.read_sofa(path, False, False)),
            ("verify=True", lambda: sf.read_sofa(path, True, False)),
            ("auto", lambda: sf.read_sofa(path))):
        ctx.step()
        ctx.state(label, sorted(want.items()))
        out = call(reader)
        if case.get("fine"):
            ctx.require(out.ok, "reader %s raised %r" % (label, out.exc),
                        what=case)
            got = {k: image_of(v) for k, v in ref.entries(out.value).items()}
            ctx.require(got == want, "reader %s: %s" % (
                label, ref.diff(want, got)), what=case)
        else:
            ctx.require(out.raised(ValueError), "data named %s were not "
                        "refused by reader %s: %r" % (
                            case["reserved"], label, out), what=case)
            ctx.require(case["reserved"] in str(out.exc),
                        "the error does not name the data: %s" % out.exc,
                        what=case)
        with open(path, "rb") as f:
            ctx.require(f.read() == raw, "reading changed the file",
                        what=case)
        # (nothing of it affects other objects)
        fresh = sf.Sofa("GeneralFIR")
        fine = call(fresh.verify, issue_handling="return").ok
        ctx.require(fine and call(fresh.copy).ok and fresh.protected,
                    "other objects are affected", what=case)
    ctx.trace()
    ctx.outcome("reserved names")
    os.remove(path)


def replaced(ctx, case):
    """The file changes between two readings (its size, name and time stamp
    do not)."""
    sf = ctx.sf
    base = os.path.join(ctx.dir, "replaced")
    os.makedirs(base)
    path = os.path.join(base, "r.sofa")
    content = {}
    for which, title, start in (("A", "first", 1), ("B", "other", 8)):
        c = {"conv": ["GeneralFIR", "1.0"], "M": 2, "N": 6,
             "change": {"GLOBAL_Title": title},
             "extra": [["Mine", "f8", "MC", start],
                       ["Words", "S1", "MS", title]]}
        attrs, dims, items = build(c)
        content[which] = attrs, dims, items, expected(attrs, items)

    def put(which, last):
        attrs, dims, items, _ = content[which]
        if case["replaced"] == "edited" and last is not None:
            with netCDF4.Dataset(path, "a") as d:
                d.setncattr("Title", attrs["Title"])
                for it in items:
                    if it[0] in ("Mine", "Words"):
                        d[it[0]][:] = it[3]
        elif case["replaced"] == "overwritten":
            nc.write(path, attrs, dims, items)
        elif case["replaced"] == "moved":
            nc.write(path + ".new", attrs, dims, items)
            os.replace(path + ".new", path)
        elif case["replaced"] == "link":
            nc.write(os.path.join(base, which), attrs, dims, items)
            if os.path.lexists(path):
                os.remove(path)
            os.symlink(which, path)
        else:                       # another folder of the same name
            shutil.rmtree(base)
            os.makedirs(base)
            nc.write(path, attrs, dims, items)
        os.utime(path, (10 ** 9, 10 ** 9))

    def read():
        if case["reader"] == "stream":
            with sf.SofaStream(path) as st:
                return {k: image_of(np.ma.copy(getattr(st, k)[:]) if k in (
                    "Mine", "Data_IR") else getattr(st, k)) for k in (
                        "Mine", "Data_IR", "GLOBAL_Title")}
        if case["reader"] == "netcdf":
            obj = sf.read_sofa_as_netcdf(path)
        else:
            obj = sf.read_sofa(path, False if case["reader"] != "auto"
                               else "auto", False)
        got = {k: image_of(v) for k, v in ref.entries(obj).items()}
        # (what the user does with the object)
        obj.Mine = 5
        if isinstance(obj.Data_IR, np.ndarray):
            obj.Data_IR[...] = -1
        return got
    last = None
    for which in case["order"]:
        if which != last:
            put(which, last)
        last = which
        ctx.step()
        ctx.state(case["replaced"], case["reader"], case["order"], which)
        out = call(read)
        want = content[which][3]
        ctx.require(out.ok, "reading raised %r" % out.exc, what=case)
        got = out.value
        ctx.require(got == {k: want[k] for k in want if k in got
                            or case["reader"] != "stream"},
                    "the content of another file was read: %s" % ref.diff(
                        want, got), what=case)
    ctx.trace()
    ctx.outcome("replaced files")
    shutil.rmtree(base)


def run(group, ctx):
    sf = ctx.sf
    path = os.path.join(ctx.dir, "r.sofa")
    for case in group:
        if "replaced" in case:
            replaced(ctx, case)
            continue
        if "reserved" in case:
            refused(ctx, case)
            continue
        attrs, dims, items = build(case)
        nc.write(path, attrs, dims, items,
                 **nc.STORAGE.get(case.get("storage"), {}))
        with open(path, "rb") as f:
            raw = f.read()
        stat = os.stat(path).st_mtime_ns
        want = expected(attrs, items)
        masked = {k for k, v in want.items() if v[0] == "masked"}
        ctx.state(sorted(want.items()))
        readers = [("netcdf", lambda: sf.read_sofa_as_netcdf(path))]
        if not case.get("invalid"):
            readers += [
                ("verify=False", lambda: sf.read_sofa(
                    path, verify=False, verbose=False)),
                ("auto", lambda: sf.read_sofa(path, verbose=True))]
        else:
            for ver in ("auto", False, True):
                ctx.step()
                out = call(sf.read_sofa, path, verify=ver)
                ctx.require(out.raised(ValueError) or
                            case.get("drop") and out.raised(AttributeError),
                            "file of an invalid convention: %r" % out,
                            what=case)
        for label, reader in readers:
            ctx.step()
            out = call(reader)
            if label == "auto" and out.raised(ValueError):
                ctx.require(float(case["conv"][1]) >= 1, "data of a version "
                            "before 1.0 were verified: %r" % out, what=case)
                # must be a verdict about the data
                again = call(sf.read_sofa, path, verify=False, verbose=False)
                v = ref.verify(ref.entries(again.value),
                               objs.conv_of(*case["conv"]), custom(case),
                               "read")
                ctx.require(v.error("read"), "reading valid data raised %s"
                            % out.exc, what=case)
                ctx.outcome("refused by verification")
                continue
            ctx.require(out.ok, "reader %s raised %r" % (label, out.exc),
                        what=case)
            got = {k: image_of(v) for k, v in ref.entries(out.value).items()}
            ctx.require(got == want, "reader %s: %s" % (
                label, ref.diff(want, got)), what=case)
            keep_shapes(ctx, out.value, items, case)
            if label == "auto" and not masked:
                # the default verifies data of versions from 1.0 on
                v = ref.verify(ref.entries(out.value),
                               objs.conv_of(*case["conv"]), custom(case),
                               "read")
                stable = float(case["conv"][1]) >= 1
                ctx.require(not stable or not v.error("read"),
                            "data that violate the standard were not "
                            "verified", what=case)
                ctx.outcome("verified" if stable else "not verified")
            for k in masked:
                ctx.require(any(k in w or k.replace("_", ".", 1) in w
                                for w in out.warnings),
                            "no warning for missing data in " + k, what=case)
            if not masked:
                ctx.require(not any("missing" in w for w in out.warnings),
                            "warning for missing data", what=case)
            ctx.require(bool(out.value.protected), "data are not protected",
                        what=case)
            if label != "netcdf":
                known = objs.conv_of(*case["conv"])
                cust = set(want) - set(known)
                text = out.stdout
                if label == "auto" and cust:
                    listed = set(w.strip() for w in
                                 text.strip().splitlines()[-1].split(","))
                    ctx.require(listed == cust, "custom entries listed: %s, "
                                "expected %s" % (listed, cust), what=case)
        with open(path, "rb") as f:
            ctx.require(f.read() == raw and os.stat(path).st_mtime_ns == stat,
                        "reading changed the file", what=case)
        ctx.trace()
        ctx.outcome("files")
        ctx.sample(case)
    if os.path.exists(path):
        os.remove(path)


def keep_shapes(ctx, sofa, items, case):
    """Only trailing dimensions of length one may be lost, a single value in
    a single dimension becomes a number."""
    for name, typ, dims, data, _, _ in items:
        k = name.replace(".", "_")
        data = np.atleast_1d(data) if typ == "S1" else data
        shape = np.shape(data)[:-1] if typ == "S1" else np.shape(data)
        got = np.shape(getattr(sofa, k))
        ok = ref.stripped(got) == ref.stripped(shape)
        if shape == (1,):
            ok = got == () or typ == "S1"
        ctx.require(ok, "%s has shape %s in the file but is %s" % (
            k, shape, got), what=case)


def custom(case):
    conv = objs.conv_of(*case["conv"])
    out = {}
    for nm, typ, dims, _ in case.get("extra", ()):
        if nm not in conv:
            out[nm] = ("string" if typ == "S1" else "double", dims)
    for nm, _ in case.get("letters", ()):
        out[nm] = ("string", "S")
    attrs, _, items = build(case)
    for a in attrs:
        if "GLOBAL_" + a not in conv:
            out["GLOBAL_" + a] = ("attribute", None)
    for it in items:
        for a in it[4]:
            k = it[0].replace(".", "_") + "_" + a
            if k not in conv:
                out[k] = ("attribute", None)
    return out
