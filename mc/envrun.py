"""Runs the scenario of C34 in a process with a given environment.

    python envrun.py ROOT WORK OUT     (settings in the environment)
"""
import gc
import glob
import json
import os
import re
import shutil
import sys
import time

DATE = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d")
HERE = os.path.dirname(os.path.abspath(__file__))
_runs = 0


def entries(obj):
    """Content of an object (the order of its entries has no meaning)."""
    from mc import ref
    return dict(sorted(ref.snapshot(obj).items()))


def plain(value, paths):
    text = repr(value)
    for p, name in paths:
        text = text.replace(p, name).replace(repr(p)[1:-1], name)
    return DATE.sub("DATE", text)


def observe(fn, obj, printed=True, text=True):
    """(result or error, object afterwards), printed text."""
    from mc.props import c32, c33
    value = err = None
    stdout, old = c33.Streams(), sys.stdout
    sys.stdout = stdout if printed else None
    try:
        value = fn()
    except Exception as e:  # noqa: BLE001
        err = (type(e).__name__, str(e) if text else "")
    finally:
        sys.stdout = old
    if type(value).__name__ == "Sofa":
        value = (entries(value), bool(value.protected))
    elif isinstance(value, str) and not text or callable(value):
        value = None
    return c32.undated((value, err) + (
        () if obj is None else (entries(obj), bool(obj.protected)))), \
        "".join(sum(stdout.text.values(), []))


def values(np):
    """Data of all kinds."""
    return {
        "int": 5, "float": 1.5, "nan": float("nan"), "text": "kHz",
        "special": "\u00e4\u00f6\u00fc \u4e2d", "empty": "", "none": None,
        "list": [1, 2], "mixed": [1, "a"], "ragged": [[1], [2, 3]],
        "texts": ["a", "\u4e2d"], "complex": 1j, "true": True,
        "ints": np.arange(6).reshape(2, 3), "column": np.ones((1, 3)),
        "matrix": np.arange(8.).reshape(2, 2, 2), "bytes": np.array([b"ab"]),
        "objects": np.array(["a", 1], dtype=object), "dict": {"a": 1},
        "huge": 1e300 * np.ones((1, 3)), "tiny": np.full((1, 3), 5e-324),
        "infinite": np.array([[np.inf, -np.inf, 0]]),
        "zeros": np.array([[0., -0., 0.]]), "many": np.arange(3000.).reshape(
            1000, 3)}


ENTRIES = ["GLOBAL_Title", "GLOBAL_RoomType", "GLOBAL_SOFAConventionsVersion",
           "SourcePosition", "SourcePosition_Units", "Data_IR", "Data_Delay",
           "Data_SamplingRate", "Data_SamplingRate_Units", "ReceiverPosition",
           "Words", "Mine", "Mine_Units"]


def used(sf, o, entry, value, path):
    """Everything that happens with a changed object."""
    from mc import model
    original = o.copy()
    out = []
    setattr(o, entry, value)
    for fn in (lambda: o.verify("return"), lambda: sf.equals(o, original),
               lambda: sf.equals(original, o),
               lambda: o.inspect(path + ".txt"), lambda: o.list_dimensions,
               lambda: o.verify("return", "read"),
               lambda: sf.write_sofa(path + ".sofa", o),
               lambda: model.file_dump(path + ".sofa"),
               lambda: sf.read_sofa(path + ".sofa"),
               lambda: open(path + ".txt", encoding="utf-8").read()):
        try:
            r = fn()
            out.append(repr(observe(lambda: r, None)[0]))
        except Exception as e:  # noqa: BLE001
            out.append((type(e).__name__, str(e)))
    return out


def refusals(sf, path, file):
    """Calls with all kinds of unusable arguments."""
    import netCDF4
    from mc import web

    def patched(**attrs):
        target = path + "-patched.sofa"
        with open(file, "rb") as f, open(target, "wb") as g:
            g.write(f.read())
        with netCDF4.Dataset(target, "a") as n:
            for k, v in attrs.items():
                if v is None:
                    n.delncattr(k)
                else:
                    n.setncattr(k, v)
        return target

    def streamed(name, call=None):
        with sf.SofaStream(file) as s:
            return s.get_dimension(call) if call else getattr(s, name)

    def bad(text):
        with open(path + ".sofa", "wb") as f:
            f.write(text)
        return path + ".sofa"
    out = {}
    for n, args in enumerate([
            ("GeneralXYZ",), ("GeneralFIR", False, "9.9"), (1,), ("",),
            ("General",), ("GeneralFIR", True, 1.0), ("GeneralFIR", True, ""),
            ("GeneralFIR", True, "latest", "x")]):
        out["Sofa %d" % n] = lambda o, args=args: sf.Sofa(*args)
    for n, args in enumerate([
            ("A_b", 1, "double", "M"), ("Mine", 1, "double", "M"),
            ("New", 1, "int", "M"), ("New", 1, "attribute", None),
            ("New", 1, "double", None), ("New", ["a"], "string", "M"),
            ("New", 1, "double", "MS"), ("New", [1], "double", "?"),
            ("New", [1, 2, 3], "double", "M"), ("Data_X", 1, "double", "I"),
            ("GLOBAL_X", 1, "double", "I"), ("New", ["\u4e2d"], "string",
                                             "WS"), ("New", {}, "double", "I"),
            ("_New", 1, "double", "I"), ("a.b", 1, "double", "I")]):
        out["add_variable %d" % n] = lambda o, args=args: \
            o.add_variable(*args)
    for n, args in enumerate([
            ("New", "x"), ("Absent_Units", "x"), ("GLOBAL_New", 1),
            ("GLOBAL_Title", "x"), ("Mine_Units", "x"), ("Mine_", "x"),
            ("Mine_Type_Units", "x"), ("Data_IR_New", "\u4e2d"),
            ("_New", "x")]):
        out["add_attribute %d" % n] = lambda o, args=args: \
            o.add_attribute(*args)
    for n, fn in enumerate([
            lambda o: o.delete("Absent"), lambda o: o.delete("Data_IR"),
            lambda o: o.delete("Mine"), lambda o: delattr(o, "Mine_Units"),
            lambda o: delattr(o, "Data_IR"), lambda o: delattr(o, "Absent"),
            lambda o: setattr(o, "Absent", 1),
            lambda o: setattr(o, "GLOBAL_Conventions", "x"),
            lambda o: setattr(o, "GLOBAL_SOFAConventions", "x"),
            lambda o: setattr(o, "protected", 2),
            lambda o: o.info("absent"), lambda o: o.info("SourcePosition"),
            lambda o: o.get_dimension("?"), lambda o: o.get_dimension("Q"),
            lambda o: o.verify("shout"), lambda o: o.verify("raise", "delete"),
            lambda o: o.upgrade_convention("Absent_1.0"),
            lambda o: o.add_missing(False, False),
            lambda o: o.add_missing(True, False, False),
            lambda o: sf.equals(o, o, exclude="ALL"),
            lambda o: sf.equals(o, sf.Sofa("GeneralFIR"), exclude="?"),
            lambda o: sf.equals(o, o.copy(), True, "DATE"),
            lambda o: sf.equals(o, sf.Sofa("GeneralTF"), True, "ATTR"),
            lambda o: sf.equals(o, 1),
            lambda o: sf.write_sofa(1, o), lambda o: sf.write_sofa(path, 1),
            lambda o: sf.write_sofa(os.path.join(path, "absent", "a.sofa"),
                                    o),
            lambda o: sf.write_sofa(path + ".wav", o),
            lambda o: sf.read_sofa(path + "-absent.sofa"),
            lambda o: sf.read_sofa(bad(b"")),
            lambda o: sf.read_sofa(bad(b"no netCDF \xff" * 90)),
            lambda o: sf.read_sofa(path + ".wav"),
            lambda o: sf.read_sofa_as_netcdf(path + "-absent.sofa"),
            lambda o: sf.read_sofa_as_netcdf(path + ".nc"),
            lambda o: streamed("GLOBAL_Absent"), lambda o: streamed("Absent"),
            lambda o: streamed("Data_Absent"),
            lambda o: streamed("Mine_Absent"),
            lambda o: streamed("", "?"), lambda o: streamed("", "m"),
            lambda o: sf.read_sofa(patched(SOFAConventionsVersion="7.0")),
            lambda o: sf.read_sofa(patched(SOFAConventionsVersion="0.9"),
                                   False, False),
            lambda o: sf.read_sofa(patched(SOFAConventions="Absent")),
            lambda o: sf.read_sofa(patched(SOFAConventions=None)),
            lambda o: sf.read_sofa(patched(Title=None)),
            lambda o: sf.read_sofa(patched(Title=None), False),
            lambda o: sf.read_sofa(patched(Title="\u4e2d")),
            lambda o: sf.read_sofa(patched(RoomType="kitchen")),
            lambda o: sf.read_sofa(patched(DataType="TF")),
            lambda o: sf.read_sofa(patched(Mine="x")),
            lambda o: web.update(sf, web.Site({}), path + "-absent").exc,
            lambda o: web.update(sf, web.Site({}), os.path.dirname(path))
            .exc]):
        out["refused %d" % n] = fn
    return out


def more(ctx, work, skip):
    """Further operations (name, object, function)."""
    import numpy as np
    from mc import model
    from mc.props import c32
    sf = ctx.sf
    base = {}
    for name, (conv, version, ops) in c32.OBJECTS.items():
        pair = model.Pair(ctx, conv, version)
        for op in ops:
            pair.apply(op)
        base[name] = pair.obj
    path = os.path.join(work, "more")
    os.makedirs(path, exist_ok=True)
    file = os.path.join(path, "data.sofa")
    sf.write_sofa(file, base["valid"])
    target = os.path.join(path, "x")
    for obj in base:
        for name, fn in c32.OPS.items():
            if "write" in name or obj != "valid" and name in c32.WRITING + (
                    "read", "list", "version", "netcdf", "construct"):
                continue
            if skip and name == "stream":
                continue
            o = base[obj].copy()
            yield "%s %s" % (obj, name), o, lambda o=o, fn=fn: fn(
                sf, o, file, target + ".sofa")
    if skip:
        return
    for entry in ENTRIES:
        for name, value in values(np).items():
            if name == "many" and entry not in ("Mine", "SourcePosition"):
                continue
            o = base["valid"].copy()
            yield "%s = %s" % (entry, name), o, \
                lambda o=o, e=entry, v=value: used(sf, o, e, v, target)
    for name, fn in refusals(sf, target, file).items():
        o = base["valid"].copy()
        yield name, o, lambda o=o, fn=fn: fn(o)


def scenario(ctx, work, paths, printed=True, text=True):
    """Name of the operation: everything that can be observed."""
    from mc import fixture, web
    from mc.props import c33
    import numpy as np
    out = {}

    def add(name, fn, obj):
        for d in glob.glob(os.path.join(glob.escape(work), "more", "x*")):
            if os.path.isdir(d):
                shutil.rmtree(d)
            else:
                os.remove(d)
        got, shown = observe(fn, obj, printed, text)
        out[name] = plain(got, paths)
        if printed and text:
            out[name + " shown"] = plain(shown, paths)
    for who in ("A", "B"):
        w = c33.World(ctx, who)
        for name in c33.OPS:
            # a relative name without a current folder can not be resolved
            if "relative" in name and os.environ["MC_CWD"] == "removed":
                continue
            (key, fn), = w.tasks([name])
            add("%s %s" % (who, name), fn, w.objects[name])
            if text:
                out["%s %s later" % (who, name)] = plain(
                    w.later()[name], paths)
    for name, obj, fn in more(ctx, work, not text):
        add(name, fn, obj)
    # updates
    published = {}
    for n, ((name, ver, dep), rows) in enumerate(fixture.SPEC.items()):
        if n % 4:
            data = fixture.csv_text(rows).encode("windows-1252")
            published["%s_%s.csv" % (name, ver)] = (
                dep, data.replace(b"General", b"G\xe9n\xe9ral"))
    global _runs
    _runs += 1
    folder = os.path.join(work, "update%d" % _runs,
                          os.environ.get("MC_FOLDER", "conventions"))
    os.makedirs(os.path.dirname(folder))
    paths = [(folder, "FOLDER")] + paths
    for step in range(2):
        run = web.update(ctx.sf, web.Site(published), folder, True,
                         printed=printed)
        files = {}
        for base, _, names in os.walk(folder):
            for n in names:
                with open(os.path.join(base, n), "rb") as f:
                    files[os.path.relpath(os.path.join(base, n), folder)] = \
                        f.read()
        out["update %d" % step] = plain(
            [repr(run.exc), sorted(files.items())], paths)
        if printed:
            out["update %d shown" % step] = plain(run.stdout, paths)
        published = {k: (d, t.replace(b"48000", b"44100"))
                     for k, (d, t) in published.items()}
    np.seterr(all="warn")
    return out


def main():
    root, work, target = sys.argv[1:]
    sys.path.insert(0, os.path.dirname(HERE))
    sys.path = [p for p in sys.path if os.path.abspath(p) != HERE]
    import warnings
    warnings.simplefilter("ignore")
    cwd = os.environ["MC_CWD"]
    if cwd == "removed":
        d = os.path.join(work, "removed")
        os.mkdir(d)
        os.chdir(d)
    else:
        os.chdir(cwd)
    import numpy as np
    from mc import engine, overlay
    sf = overlay.load(root)
    ctx = engine.Ctx("C34", "quick", root, {})
    ctx._dir, ctx._sofar = work, sf
    if cwd == "removed":
        os.rmdir(os.getcwd())
    paths = [(os.path.realpath(root), "ROOT"), (root, "ROOT"),
             (work, "WORK")]
    results = {"plain": scenario(ctx, work, paths)}
    for name in os.environ.get("MC_INSIDE", "").split():
        if name == "errors":
            np.seterr(all="raise", under="ignore")
            results[name] = scenario(ctx, work, paths)
        elif name == "silent":
            results[name] = scenario(ctx, work, paths, printed=False)
        elif name == "nogc":
            gc.disable()
            results[name] = scenario(ctx, work, paths)
            gc.enable()
        elif name == "zone":
            os.environ["TZ"] = "Pacific/Kiritimati"
            time.tzset()
            results[name] = scenario(ctx, work, paths)
        elif name == "digits":
            with np.printoptions(precision=2, threshold=3, edgeitems=1):
                results[name] = scenario(ctx, work, paths, text=False)
    if os.environ["MC_INSIDE"] == "reference":
        results["text"] = scenario(ctx, work, paths, text=False)
    with open(target, "w", encoding="utf-8") as f:
        json.dump(results, f)


if __name__ == "__main__":
    main()
