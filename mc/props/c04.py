"""C04 saving: all combinations of edits up to a bound (valid and violating)
x state of the target, executed on the real writer; the reference verifier
decides whether the save has to be refused; the directory is compared before
and after."""
import itertools
import os

from .. import fixture, model, objs, ref
from ..engine import call

PROPERTY = "C04"
TECHNIQUE = ("exhaustive enumeration of edit combinations x initial states of "
             "the target on the real writer, directory snapshots compared")

# name -> (operations, kind); run on the unprotected object
EDITS = {
    "title": [["set", "GLOBAL_Title", ["s", "new"]]],
    "more data": [["set", "Data_IR", ["ramp", [2, "R", 3]]]],
    "no title": [["del", "GLOBAL_Title"]],
    "no variable": [["del", "SourcePosition"]],
    "no type": [["del", "ReceiverPosition_Type"]],
    "number as text": [["set", "GLOBAL_License", ["n", 1]]],
    "array as text": [["set", "GLOBAL_RoomType", ["list", [1, 2]]]],
    "text as number": [["set", "Data_SamplingRate", ["s", "48000"]]],
    "complex": [["set", "Data_IR", ["py", "complex"]]],
    "object array": [["set", "Data_Delay", ["py", "object"]]],
    "None": [["set", "Data_SamplingRate", ["py", "None"]]],
    "shape": [["set", "ListenerPosition", ["list", [1, 2]]]],
    "shape 2": [["set", "SourcePosition", ["ramp", [4, 3]]]],
    "fixed": [["set", "Data_SamplingRate", ["list", [1, 2]]]],
    "unit": [["set", "ListenerPosition_Units", ["s", "inch"]]],
    "unit case": [["set", "SourcePosition_Units", ["s", "Metre"]]],
    "unit case 2": [["set", "Data_SamplingRate_Units", ["s", "Hertz"]]],
    "value": [["set", "GLOBAL_RoomType", ["s", "kitchen"]]],
    "data type": [["set", "GLOBAL_DataType", ["s", "fir"]]],
    "dependency": [["set", "GLOBAL_RoomType", ["s", "reverberant"]]],
    "type of position": [["set", "EmitterPosition_Type",
                          ["s", "spherical"]]],
    "custom": [["add", "Mine", ["list", [1, 2, 3]], "double", "C"]],
    "custom shape": [["add", "Mine2", ["list", [1, 2]], "double", "C"]],
    "custom type": [["add", "Mine3", ["s", "x"], "double", "I"]],
    "custom name": [["add", "PRIVATEdata", ["n", 1], "double", "I"]],
    "custom API": [["add", "APIdata", ["n", 1], "double", "I"]],
    "custom normative": [["add", "Title", ["n", 1], "double", "I"]],
    "lost attribute": [["add", "Mine4", ["n", 1], "double", "I"],
                       ["attr", "Mine4_Units", ["s", "u"]],
                       ["del", "Mine4"]],
    "custom unit": [["attr", "ListenerPosition_MyUnits", ["s", "Furlong"]]],
    "deprecated": [["set", "GLOBAL_SOFAConventions",
                    ["s", "SimpleFreeFieldTF"]]],
    "deprecated 2": [["set", "GLOBAL_SOFAConventions", ["s", "OldTracker"]]],
    "unknown": [["set", "GLOBAL_SOFAConventions", ["s", "Unknown"]]],
    "unknown version": [["set", "GLOBAL_SOFAConventionsVersion",
                         ["s", "9.0"]]],
    "conventions": [["set", "GLOBAL_Conventions", ["s", "sofa2"]]],
}
LEVELS = [0, 9, 1, 4]
INVALID = [-1, 10, 99, "x"]
TARGETS = ["absent", "sofa", "garbage", "empty"]
OBJECTS = [["GeneralFIR", "1.0"], ["SimpleFreeFieldHRIR", "1.0"]]
OTHER = [list(c) for c in objs.WRITABLE] + [
    [n, v] for (n, v, d) in fixture.SPEC if n in objs.NAMED]


def BOUNDS(tier):
    return {"edits": len(EDITS), "combined edits": "3 (2 for the second object"
            " in the quick tier)", "targets": TARGETS,
            "compression": LEVELS + INVALID, "objects": OBJECTS,
            "every convention unedited": len(OTHER)}


def cases(tier):
    out = [["plain", c, ()] for c in OTHER]
    for conv in OBJECTS:
        for k in range(0, 4):
            if k == 3 and conv != OBJECTS[0] and tier != "thorough":
                continue
            for first in (EDITS if k else [None]):
                out.append(["edits", conv, [first, k]])
    out += [["places", OBJECTS[0], ()]]
    return out


def combos(first, k):
    if k == 0:
        yield ()
        return
    names = list(EDITS)
    rest = names[names.index(first) + 1:]
    for c in itertools.combinations(rest, k - 1):
        yield (first,) + c


def tree(path):
    out = {}
    for base, dirs, files in os.walk(path):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), path)] = None
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, path)] = fh.read()
    return out


def prepare(ctx, work, target):
    for f in os.listdir(work):
        os.remove(os.path.join(work, f))
    with open(os.path.join(work, "other.sofa"), "wb") as f:
        f.write(b"other file")
    path = os.path.join(work, "t.sofa")
    if target == "sofa":
        with open(path, "wb") as f:
            f.write(ctx.valid_file)
    elif target == "garbage":
        with open(path, "wb") as f:
            f.write(b"not a netCDF file" * 50)
    elif target == "empty":
        open(path, "wb").close()
    return path


def attempt(ctx, sf, work, obj, refuse, target, level=None, **info):
    info["compression"] = level
    path = prepare(ctx, work, target)
    before = tree(work)
    ent = ref.snapshot(obj)
    ctx.step()
    out = call(sf.write_sofa, path, obj) if level is None else \
        call(sf.write_sofa, path, obj, compression=level)
    after = tree(work)
    ctx.state(target, sorted(ent.items()))
    if refuse:
        ctx.require(not out.ok, "data that do not verify (or with an "
                    "invalid compression) were saved",
                    target=target, **info)
        ctx.require(after == before, "refused save changed the disk: %s" % (
            sorted(k for k in set(after) | set(before)
                   if after.get(k) != before.get(k))), target=target, **info)
        ctx.outcome("refused")
    else:
        ctx.require(out.ok, "saving valid data raised %r" % out.exc,
                    target=target, **info)
        ctx.require(set(after) == set(before) | {"t.sofa"},
                    "files after saving: %s" % sorted(after), **info)
        ctx.require(after["other.sofa"] == before["other.sofa"],
                    "other file was changed", **info)
        ctx.require(after["t.sofa"] != before.get("t.sofa"),
                    "file was not replaced", **info)
        dump = model.file_dump(path)
        name = dump["attrs"].get("SOFAConventions")
        ctx.require(name == obj.GLOBAL_SOFAConventions and dump["attrs"].get(
            "Title") == obj.GLOBAL_Title,
            "file does not contain the object", **info)
        ctx.outcome("saved")
    ctx.require(ref.snapshot(obj) == ent, "saving changed the object: %s"
                % ref.diff(ent, ref.snapshot(obj)), **info)


def run(case, ctx):
    kind, conv, arg = case
    sf = ctx.sf
    work = os.path.join(ctx.dir, "w")
    os.makedirs(work, exist_ok=True)
    if not hasattr(ctx, "valid_file"):
        path = os.path.join(ctx.dir, "valid.sofa")
        other = sf.Sofa("GeneralTF")
        other.GLOBAL_Title = "previous content"
        sf.write_sofa(path, other)
        with open(path, "rb") as f:
            ctx.valid_file = f.read()
        os.remove(path)
    if kind == "places":
        places(ctx, sf, work)
        return
    names = [()] if kind == "plain" else combos(*arg)
    for combo in names:
        pair = model.Pair(ctx, conv[0], conv[1])
        pair.apply(["prot", False])
        unknown = False
        for e in combo:
            for op in EDITS[e]:
                op = list(op)
                if op[0] == "set" and op[2][0] == "ramp":
                    r = 2 if "HRIR" in conv[0] else 1
                    op[2] = ["ramp", [r if x == "R" else x
                                      for x in op[2][1]]]
                if op[0] == "attr" and op[1].split("_")[0] not in \
                        pair.model.ent:
                    continue
                pair.apply(op)
                pair.apply(["prot", False])
            unknown = unknown or e.startswith("unknown")
        if unknown:
            refuse = True
        else:
            m = pair.model
            name = m.ent["GLOBAL_SOFAConventions"]
            vers = m.ent["GLOBAL_SOFAConventionsVersion"]
            if (name, vers) not in objs.WRITABLE and (
                    name, vers) not in objs.DEPRECATED:
                refuse = True
            else:
                refuse = write_verdict(m, name, vers)
        for target in TARGETS:
            attempt(ctx, sf, work, pair.obj, refuse, target,
                    edits=list(combo), object=conv)
        for level in LEVELS if len(combo) < 2 else LEVELS[:1]:
            for target in TARGETS if len(combo) < 2 else TARGETS[1:2]:
                attempt(ctx, sf, work, pair.obj, refuse, target, level,
                        edits=list(combo), object=conv)
        for level in INVALID if len(combo) < 2 else ():
            for target in TARGETS:
                attempt(ctx, sf, work, pair.obj, True, target, level,
                        edits=list(combo), object=conv)
        ctx.sample({"object": conv, "edits": list(combo)})


def write_verdict(m, name, vers):
    """Refused?  With the convention the object claims to be of."""
    conv = model.conv_of(name, vers)
    custom = dict(m.custom)
    ent = dict(m.ent)
    for k in list(ent):
        if k not in conv and k not in custom:
            return True                  # entries of another convention
    return ref.verify(ent, conv, custom, "write").error("write")


def places(ctx, sf, work):
    """Targets that can not be written."""
    obj = sf.Sofa("GeneralFIR")
    prepare(ctx, work, "absent")
    os.makedirs(os.path.join(work, "dir.sofa"))
    try:
        before = tree(work)
        for p in ("missing/t.sofa", "dir.sofa", "other.sofa/t.sofa"):
            ctx.step()
            ent = ref.snapshot(obj)
            out = call(sf.write_sofa, os.path.join(work, p), obj)
            ctx.state(p)
            ctx.require(not out.ok, "saving to %s succeeded" % p)
            ctx.require(tree(work) == before, "files changed: " + p)
            ctx.require(ref.snapshot(obj) == ent, "object changed: " + p)
    finally:
        os.rmdir(os.path.join(work, "dir.sofa"))
