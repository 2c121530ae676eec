"""C24 upgrading: on separate installations all upgrade rule sets of a bounded
grammar (moves, axes, removals, targets, versions) are applied to objects with
all subsets of the affected entries, several shapes and custom entries; the
result is compared with a reference upgrade, refusals with the object before.
The rules of the fixture are explored on all conventions."""
import itertools
import os

import numpy as np

from .. import fixture, model, ref
from ..engine import call

PROPERTY = "C24"
TECHNIQUE = ("exhaustive enumeration of upgrade rule sets (separate "
             "installations) x object contents x targets on the real package "
             "against a reference upgrade")

AXES = [None, [0, 1], [1, 0], [0, 2], [2, 0], [1, 2], [2, 1], [2, 3], [3, 2],
        [3, 0], [1, 3]]
MOVES = [("OldText", "NewText"), ("OldVar:Units", "NewVar:Units"),
         ("GLOBAL:OldNote", "GLOBAL:NewNote"), ("Data.Old", "Data.New")]
REMOVE = ["OldGone", "GLOBAL:Comment", "Absent", "OldGone:Units"]
SHAPES = [None, [2, 3], [2, 1, 3], [2, 2, 3, 2]]
IDENT = ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion",
         "GLOBAL_Version", "GLOBAL_DataType")


def old_rows(name, version, dtype="FIR"):
    return (fixture._globals(name, version, dtype, "1.0", extra=[
        ("GLOBAL:OldNote", "old", None, None, "attribute", "")])
        + fixture._geometry([[0, 0, 0]]) + [
            ("OldVar", 0, None, "I, MR, MRS"[:5], "double", ""),
            ("OldVar:Units", "metre", None, None, "attribute", ""),
            ("OldText", fixture.EMPTYSTR, None, "MS", "string", ""),
            ("OldGone", 5, None, "I", "double", ""),
            ("OldGone:Units", "metre", None, None, "attribute", ""),
            ("Data.Old", 1, None, "I", "double", "")]
        + fixture._fir([0], [0]))


def new_rows(name, version, dtype="FIR"):
    return (fixture._globals(name, version, dtype, "2.1", extra=[
        ("GLOBAL:NewNote", "default note", "m", None, "attribute", ""),
        ("GLOBAL:Added", "added " + version, "m", None, "attribute", "")])
        + fixture._geometry([[0, 0, 0]]) + [
            ("NewVar", 7, "m" if version == "2.0" else None, "I, MR",
             "double", ""),
            ("NewVar:Units", "metre", None, None, "attribute", ""),
            ("NewText", fixture.EMPTYSTR, None, "MS", "string", ""),
            ("NewList", [[1, 2, 3]], "m", "IC, MC", "double", ""),
            ("Data.New", 1, None, "I", "double", "")]
        + fixture._fir([0], [0]))


def BOUNDS(tier):
    return {"axes": AXES, "moves": "the axes x all subsets of %d" % len(
        MOVES), "removals": "all subsets of %d" % len(REMOVE),
        "present entries": "all subsets of the affected", "shapes": SHAPES,
        "deprecation": "named or not x rules or not x version listed or not",
        "conventions of the fixture": len(fixture.SPEC),
        "paths": "all sequences of 3 targets in a graph of 6 conventions"}


def cases(tier):
    out = []
    for i, ax in enumerate(AXES):
        for k in range(len(MOVES) + 1):
            for j, mv in enumerate(itertools.combinations(
                    range(len(MOVES)), k)):
                if tier != "thorough" and i > 1 and k not in (0, 4) \
                        and (i + j) % 4:
                    continue
                out.append(["rules", ax, list(mv), []])
    for k in range(1, len(REMOVE) + 1):
        for rm in itertools.combinations(range(len(REMOVE)), k):
            for mv in ([], [0, 1, 2, 3]) if tier == "thorough" else ([0, 2],):
                out.append(["rules", None, mv, list(rm)])
    out += [["status", a, b, c] for a in (0, 1) for b in (0, 1)
            for c in (0, 1)]
    out += [["paths"], ["verifying"]]
    out += [["failing", ax, own] for ax in AXES for own in (0, 1)]
    out += [["main", n, v] for (n, v, _) in fixture.SPEC]
    return out


def run(case, ctx):
    kind = case[0]
    old = {("Old", "0.4", True): old_rows("Old", "0.4"),
           ("Old", "0.5", True): old_rows("Old", "0.5"),
           ("Old", "0.6", True): old_rows("Old", "0.6"),
           ("New", "1.0", False): new_rows("New", "1.0"),
           ("New", "2.0", False): new_rows("New", "2.0", "FIR-E"),
           ("New", "0.9", False): new_rows("New", "0.9")}
    if kind == "rules":
        _, ax, mv, rm = case
        rule = {"move": {}, "remove": [REMOVE[i] for i in rm],
                "message": "a message" if len(rm) % 2 else None}
        if ax is not None or mv:
            rule["move"]["OldVar"] = {
                "target": "NewVar", "moveaxis": ax,
                "deprecated_dimensions": ["I"] if len(mv) % 2 else None}
        for i in mv:
            rule["move"][MOVES[i][0]] = {
                "target": MOVES[i][1], "moveaxis": None,
                "deprecated_dimensions": None}
        keep = {"move": {}, "remove": [], "message": None}
        upgrade = {"Old": {
            "from_to": [[["0.4"], ["New_1.0", "New_0.9"], "upgrade_1"],
                        [["0.6", "0.5"], ["New_2.0"], "upgrade_2"]],
            "upgrade_1": rule, "upgrade_2": keep}}
        ctx.isolated(rules, case, upgrade, old, spec=old, upgrade=upgrade,
                     deprecations={"GLOBAL:SOFAConventions": {"Old": "New"}})
    elif kind == "status":
        _, named, has, listed = case
        upgrade = {} if not has else {"Old": {
            "from_to": [[["0.5"] if listed else ["0.4"], ["New_1.0"], "u"],
                        [["0.6"], ["New_2.0", "New_1.0"], "u"]],
            "u": {"move": {}, "remove": [], "message": None}}}
        dep = {"GLOBAL:SOFAConventions": {"Old": "New"} if named else {}}
        ctx.isolated(status, case, upgrade, dep, old, spec=old,
                     upgrade=upgrade, deprecations=dep)
    elif kind == "failing":
        def move(target, ax=None):
            return {"target": target, "moveaxis": ax,
                    "deprecated_dimensions": None}
        upgrade = {"Old": {
            "from_to": [[["0.4", "0.5"], ["New_1.0", "New_2.0",
                                          "Missing_1.0"], "u"]],
            "u": {"move": {"OldText": move("NewText"),
                           "OldVar": move("NewVar", case[1]),
                           "OldVar:Units": move("NewVar:Units"),
                           "Data.Old": move("Data.New", case[1])},
                  "remove": ["OldGone"], "message": "a message"}}}
        if case[2]:              # rules that meet custom data
            rule = upgrade["Old"]["u"]
            rule["move"] = {"Mine": move("NewList"),
                            "GLOBAL:Mine": move("GLOBAL:NewNote"),
                            **rule["move"],
                            "SourcePosition:Mine": move("GLOBAL:Added")}
            rule["remove"] += ["Words", "Mine:Units"]
        ctx.isolated(failing, case, upgrade, old, spec=old, upgrade=upgrade,
                     deprecations={"GLOBAL:SOFAConventions": {"Old": "New"}})
    elif kind == "paths":
        spec, upgrade = graph()
        ctx.isolated(paths, spec, upgrade, spec=spec, upgrade=upgrade,
                     deprecations={"GLOBAL:SOFAConventions": {}})
    elif kind == "verifying":
        spec, upgrade = graph()
        ctx.isolated(verifying, spec, upgrade, spec=spec, upgrade=upgrade,
                     deprecations={"GLOBAL:SOFAConventions": {}})
    else:
        main(ctx, case)
    ctx.sample(case)


# --------------------------------------------------------------------------
def name_of(key):
    return key.replace(".", "_").replace(":", "_")


def moved(value, ax):
    """Independent definition of moving an axis."""
    if ax is None:
        return value
    a = np.asarray(value)
    while a.ndim < max(ax) + 1:
        a = a.reshape(a.shape + (1,))
    order = [i for i in range(a.ndim) if i != ax[0]]
    order.insert(ax[1], ax[0])
    return np.transpose(a, order)


def expect(ent, rule, conv):
    """Entries after an upgrade; `conv` is the target convention."""
    ent = dict(ent)
    for k in IDENT:
        ent[k] = conv[k]["default"]
    for src, m in rule["move"].items():
        if name_of(src) in ent:
            val = ent.pop(name_of(src))
            ent[name_of(m["target"])] = moved(val, m["moveaxis"])
    for k in rule["remove"]:
        ent.pop(name_of(k), None)
    added = []
    for k, s in conv.items():
        if ref.mandatory(s) and k not in ent:
            ent[k] = ref.store(s["default"])
            added.append(k)
    return ent, added


def compare(ctx, obj, want, added, info):
    got = ref.entries(obj)
    ctx.require(set(got) == set(want), "entries differ: %s" % sorted(
        set(got) ^ set(want)), **info)
    for k in want:
        same = ref.squeezed(got[k]) == ref.squeezed(want[k]) if k in added \
            else ref.canon(got[k]) == ref.canon(want[k]) or (
                isinstance(want[k], np.ndarray) and want[k].size == 1
                and np.size(got[k]) == 1
                and ref.squeezed(got[k]) == ref.squeezed(want[k]))
        ctx.require(same, "%s is %r instead of %r" % (k, got[k], want[k]),
                    **info)
    ctx.require(bool(obj.protected), "not protected", **info)


def unchanged(ctx, obj, fn, target, targets, info, verify=None):
    """A request that must not change anything."""
    before, order = ref.snapshot(obj), list(ref.entries(obj))
    prot = bool(obj.protected)
    kw = {} if verify is None else {"verify": verify}
    out = call(fn, target, **kw) if target is not None else call(fn, **kw)
    ctx.step()
    ctx.require(out.ok, "upgrade(%r) raised %r" % (target, out.exc), **info)
    ctx.require(sorted(out.value or []) == sorted(targets),
                "upgrade(%r) lists %r instead of %r" % (
                    target, out.value, targets), **info)
    for t in targets:
        n, v = t.split("_")
        ctx.require(any(n in line.split() and "v" + v in line.split()
                        for line in out.stdout.splitlines()
                        if line.startswith("-")),
                    "%s is not printed: %s" % (t, out.stdout), **info)
    shown = [line for line in out.stdout.splitlines()
             if line.startswith("- ")]
    ctx.require(len(shown) == len(targets), "printed: %s" % out.stdout,
                **info)
    ctx.require(ref.snapshot(obj) == before
                and list(ref.entries(obj)) == order
                and bool(obj.protected) == prot,
                "upgrade(%r) changed the object: %s" % (target, ref.diff(
                    before, ref.snapshot(obj))), **info)
    ctx.outcome("up to date or refused" if not targets else "listed")


CUSTOMS = [
    ("Mine", [1, 2, 3], "double", "P"), ("Words", [["x"], ["yz"]], "string",
                                         "QS"),
    ("GLOBAL_Mine", "note", "attribute", None),
    ("SourcePosition_Mine", "of source", "attribute", None),
    ("Mine_Units", "metre", "attribute", None)]


def build(ctx, name, version, conv, drop=(), values={}, custom=()):
    out = call(ctx.sf.Sofa, name, version=version, verify=False)
    if not out.ok:
        raise out.exc
    obj = out.value
    ctx.trace()
    cust = {}
    for nm, val, typ, dims in custom:
        out = call(obj.add_attribute, nm, val) if typ == "attribute" \
            else call(obj.add_variable, nm, val, typ, dims)
        if not out.ok:
            raise out.exc
        cust[nm] = (typ, dims)
    obj.protected = False
    for k, v in values.items():
        setattr(obj, k, v)
    for k in drop:
        obj.delete(k)
    obj.protected = True
    return obj, cust


def rules(ctx, case, upgrade, spec):
    _, ax, mv, rm = case
    rule = upgrade["Old"]["upgrade_1"]
    conv = {(n, v): ref.convention(r) for (n, v, _), r in spec.items()}
    affected = [name_of(k) for k in list(rule["move"]) + rule["remove"]]
    affected = [k for k in dict.fromkeys(affected)
                if k in conv["Old", "0.4"]]
    subsets = [s for k in range(len(affected) + 1)
               for s in itertools.combinations(affected, k)]
    if len(subsets) > 16 and ctx.tier != "thorough":
        subsets = [s for s in subsets if len(s) in (
            0, 1, len(affected) - 1, len(affected))]
    for i, drop in enumerate(subsets):
        for j, shp in enumerate(SHAPES):
            val = 3.5 if shp is None else np.arange(
                np.prod(shp), dtype=float).reshape(shp) + 1
            values = {"OldVar": val, "OldText": np.array(["a", "b"]),
                      "OldVar_Units": "metre", "GLOBAL_OldNote": "my note",
                      "Data_Old": 9, "GLOBAL_Title": "my title"}
            custom = CUSTOMS if (i + j) % 2 else []
            obj, cust = build(ctx, "Old", "0.4", None, drop, values, custom)
            info = {"rule": rule, "deleted": drop, "shape": shp,
                    "custom": bool(custom)}
            ctx.state(repr(rule), drop, shp, bool(custom))
            unchanged(ctx, obj, obj.upgrade_convention, None,
                      ["New_1.0", "New_0.9"], info)
            for bad in ("New_2.0", "New", "Old_0.4", "", "new_1.0",
                        "New_1.0 "):
                unchanged(ctx, obj, obj.upgrade_convention, bad,
                          ["New_1.0", "New_0.9"], info)
            for target in ("New_1.0", "New_0.9"):
                work = obj.copy()
                do(ctx, work, cust, target, rule,
                   conv["New", target.split("_")[1]], False, info)
                unchanged(ctx, obj, obj.upgrade_convention, None,
                          ["New_1.0", "New_0.9"], dict(info, copied=True))
    # other versions have their own rule
    for v in ("0.5", "0.6"):
        obj, cust = build(ctx, "Old", v, None, (), {}, CUSTOMS)
        info = {"version": v}
        unchanged(ctx, obj, obj.upgrade_convention, None, ["New_2.0"], info)
        unchanged(ctx, obj, obj.upgrade_convention, "New_1.0", ["New_2.0"],
                  info)
        do(ctx, obj, cust, "New_2.0", upgrade["Old"]["upgrade_2"],
           conv["New", "2.0"], False, info)
    for v in ("0.9", "1.0", "2.0"):
        obj, cust = build(ctx, "New", v, None, (), {}, CUSTOMS)
        for t in (None, "New_1.0", "New_2.0", "x"):
            unchanged(ctx, obj, obj.upgrade_convention, t, [],
                      {"new": v, "target": t})


def do(ctx, obj, custom, target, rule, conv, verify, info):
    """Upgrade and compare with the reference."""
    info = dict(info, target=target, verify=verify)
    before = ref.entries(obj)
    want, added = expect(before, rule, conv)
    order = [k for k in before if k in want]
    out = call(obj.upgrade_convention, target, verify=verify)
    ctx.step()
    left = {k for k in want if k not in conv and k not in custom}
    if verify is not False and left:
        return out
    ctx.require(out.ok, "upgrade raised %r" % out.exc, **info)
    ctx.require(not out.value, "upgrade returns %r" % (out.value,), **info)
    compare(ctx, obj, want, added, info)
    if rule["message"]:
        ctx.require(rule["message"] in out.stdout, "message not shown: %s"
                    % out.stdout, **info)
    ctx.require([k for k in ref.entries(obj) if k in order] == order or
                rule["move"], "order of kept entries changed", **info)
    ctx.outcome("upgraded")
    if left:
        # the rules leave data that the new convention does not know
        return out
    custom = {k: v for k, v in custom.items()
              if k in want and k not in conv}
    for mode in ("write", "read"):
        v = ref.verify(ref.entries(obj), conv, custom, mode,
                       deprecations=DEP.get("d"))
        ref.judge(ctx, obj, v, mode, dict(info, after="upgrade"))
        ctx.step()
    if not v.early:
        # identity is protected again, mandatory data can not be deleted
        ctx.require(call(setattr, obj, IDENT[0], "x").raised(TypeError),
                    "identity is not read-only", **info)
        ctx.require(call(obj.delete, "GLOBAL_Title").raised(TypeError),
                    "mandatory data can be deleted", **info)
    return out


DEP = {"d": {"GLOBAL:SOFAConventions": {"Old": "New"}}}


def status(ctx, case, upgrade, dep, spec):
    _, named, has, listed = case
    DEP["d"] = dep
    conv = {(n, v): ref.convention(r) for (n, v, _), r in spec.items()}
    rule = {"move": {}, "remove": [], "message": None}
    for (n, v) in conv:
        targets = []
        if has and n == "Old":
            if v == ("0.5" if listed else "0.4"):
                targets = ["New_1.0"]
            elif v == "0.6":
                targets = ["New_2.0", "New_1.0"]
        for drop in ((), ("OldText" if n == "Old" else "NewText",)):
            for prot in (True, False):
                obj, cust = build(ctx, n, v, None, drop, {}, CUSTOMS)
                obj.protected = prot
                info = {"data": [n, v], "case": case, "deleted": drop}
                ctx.state(n, v, drop, prot)
                for t in (None, "New_1.0", "New_2.0", "New_0.9", "Old_0.4",
                          "Old_0.6", "Unknown_1.0", "New", "x_y_z"):
                    if t in targets:
                        work = obj.copy()
                        do(ctx, work, cust, t, rule,
                           conv[tuple(t.split("_"))], False, info)
                    else:
                        for verify in (None, True, False):
                            unchanged(ctx, obj, obj.upgrade_convention, t,
                                      targets, info, verify)


ODD = ["text", None, b"bytes", np.array("text"), np.array(["a", "b"]),
       np.array([1, None]), {"a": 1}, 2, 2.5, True, 1 + 2j,
       np.arange(120.).reshape((1, 2, 3, 4, 5))]


def failing(ctx, case, upgrade, spec):
    """Values whose axes can not be moved and missing conventions: whatever
    happens, an error leaves the object unchanged."""
    rule = upgrade["Old"]["u"]
    conv = {(n, v): ref.convention(r) for (n, v, _), r in spec.items()}
    for version in ("0.4", "0.5"):
        for key in ("OldVar", "Data_Old", "OldText", "OldVar_Units"):
            for i, odd in enumerate(ODD):
                for prot in (True, False):
                    obj, cust = build(ctx, "Old", version, None, (), {},
                                      CUSTOMS if i % 2 else [])
                    obj.protected = False
                    out = call(setattr, obj, key, odd)
                    if not out.ok:
                        continue
                    obj.protected = prot
                    info = {"key": key, "value": repr(odd), "axes": case[1],
                            "protected": prot}
                    ctx.state(version, key, i, prot)
                    for target in ("New_1.0", "New_2.0", "Missing_1.0"):
                        fails(ctx, obj, target, rule, conv, info)


def fails(ctx, obj, target, rule, conv, info):
    info = dict(info, target=target)
    work = obj.copy()
    before, order = ref.snapshot(work), list(ref.entries(work))
    prot = bool(work.protected)
    out = call(work.upgrade_convention, target, verify=False)
    ctx.step()
    if out.ok:
        ctx.require(target != "Missing_1.0", "upgraded to a convention that "
                    "does not exist", **info)
        ctx.outcome("upgraded")
        got = ref.entries(work)
        want, _ = expect(ref.entries(obj), {"move": {}, "remove": []},
                         conv[tuple(target.split("_"))])
        for k in IDENT:
            ctx.require(got[k] == want[k], "%s is %r" % (k, got[k]), **info)
        for k in list(rule["move"]) + rule["remove"]:
            ctx.require(name_of(k) not in got, "%s was kept" % k, **info)
        ctx.require(bool(work.protected), "not protected", **info)
        return
    ctx.outcome("failed")
    ctx.require(ref.snapshot(work) == before
                and list(ref.entries(work)) == order,
                "the failed upgrade (%r) changed the object: %s" % (
                    out.exc, ref.diff(before, ref.snapshot(work))), **info)
    ctx.require(bool(work.protected) == prot, "protection is %s after the "
                "failed upgrade" % work.protected, **info)
    # later behaviour
    for mode in ("write", "read"):
        a = call(obj.copy().verify, "return", mode)
        b = call(work.copy().verify, "return", mode)
        ctx.require((a.ok, a.value, repr(a.exc)) == (
            b.ok, b.value, repr(b.exc)), "verification differs after the "
            "failed upgrade: %r %r" % (a, b), **info)


# --------------------------------------------------------------------------
def graph():
    """Six conventions connected by upgrade rules that keep all data valid."""
    def rows(name, version, var, dtype="FIR"):
        return fixture._globals(name, version, dtype) \
            + fixture._geometry([[0, 0, 0]]) \
            + [(var, 0, None, "M", "double", ""),
               (var + ":Units", "metre", None, None, "attribute", "")] \
            + fixture._fir([0], [0])
    spec = {("A", "0.5", True): rows("A", "0.5", "One"),
            ("A", "1.0", False): rows("A", "1.0", "Two"),
            ("B", "1.0", False): rows("B", "1.0", "Three"),
            ("B", "2.0", False): rows("B", "2.0", "Three"),
            ("AB", "1.0", False): rows("AB", "1.0", "One"),
            ("C", "0.9", False): rows("C", "0.9", "Two")}

    def mv(a, b):
        return {"move": {a: {"target": b, "moveaxis": None,
                             "deprecated_dimensions": None},
                         a + ":Units": {"target": b + ":Units",
                                        "moveaxis": None,
                                        "deprecated_dimensions": None}},
                "remove": [], "message": None}
    keep = {"move": {}, "remove": [], "message": "kept"}
    upgrade = {
        "A": {"from_to": [[["0.5"], ["A_1.0", "C_0.9"], "u1"],
                          [["1.0"], ["B_1.0", "B_2.0"], "u2"]],
              "u1": mv("One", "Two"), "u2": mv("Two", "Three")},
        "B": {"from_to": [[["1.0"], ["B_2.0"], "u1"],
                          [["2.0"], ["AB_1.0"], "u2"]],
              "u1": keep, "u2": mv("Three", "One")},
        "AB": {"from_to": [[["2.0"], ["A_1.0"], "u1"]], "u1": keep},
        "C": {"from_to": [[["0.9"], ["A_1.0"], "u1"]],
              "u1": {"move": {}, "remove": ["Two", "Two:Units"],
                     "message": None}}}
    return spec, upgrade


def paths(ctx, spec, upgrade):
    DEP["d"] = {"GLOBAL:SOFAConventions": {}}
    conv = {(n, v): ref.convention(r) for (n, v, _), r in spec.items()}
    every = ["%s_%s" % k for k in conv]
    for start in conv:
        for seq in itertools.product(every, repeat=3):
            obj, cust = build(ctx, start[0], start[1], None, (), {
                "GLOBAL_Title": "title", "Data_IR": np.ones((1, 1, 3)),
                "GLOBAL_Comment": "c"}, CUSTOMS)
            here = start
            for n, target in enumerate(seq):
                info = {"start": start, "targets": seq[:n + 1]}
                ctx.state(start, *seq[:n + 1])
                ways = [f for f in upgrade.get(here[0], {"from_to": []})[
                    "from_to"] if here[1] in f[0]]
                if ways and target in ways[0][1]:
                    new = tuple(target.split("_"))
                    do(ctx, obj, cust, target,
                       upgrade[here[0]][ways[0][2]], conv[new],
                       ("auto", True, False)[n], info)
                    here = new
                else:
                    unchanged(ctx, obj, obj.upgrade_convention, target,
                              ways[0][1] if ways else [], info)


DEFECTS = [{}, {"ListenerPosition_Units": "furlong"},
           {"GLOBAL_RoomType": "nowhere"}, {"Data_SamplingRate": "text"},
           {"SourcePosition": [[1., 2.], [3., 4.]]},
           {"Data_IR": np.ones((2, 2, 2))}, {"GLOBAL_Title": 3},
           {"Data_SamplingRate_Units": "Hertz"}]


def verifying(ctx, spec, upgrade):
    """The result is verified if asked for, by default for versions from 1.0
    on."""
    DEP["d"] = {"GLOBAL:SOFAConventions": {}}
    for (n, v, _) in spec:
        for sources, targets, _ in upgrade.get(n, {"from_to": []})["from_to"]:
            for target in targets if v in sources else ():
                for defect in DEFECTS:
                    for kw in ({}, {"verify": "auto"}, {"verify": True},
                               {"verify": False}):
                        obj, _ = build(ctx, n, v, None, (), defect, ())
                        info = {"from": [n, v], "to": target, "call": kw,
                                "defect": repr(defect)}
                        ctx.state(n, v, target, repr(defect), repr(kw))
                        out = call(obj.upgrade_convention, target, **kw)
                        ctx.step()
                        again = call(obj.verify)
                        ctx.require(again.ok or again.raised(ValueError),
                                    "verify: %r" % again.exc, **info)
                        ctx.require(again.ok == (not defect), "verify after "
                                    "the upgrade: %r" % again, **info)
                        wanted = kw.get("verify", "auto")
                        if wanted == "auto":
                            wanted = float(target.split("_")[1]) >= 1
                        ctx.require(
                            out.raised(ValueError) and
                            str(out.exc) == str(again.exc) if
                            wanted and defect else out.ok,
                            "upgrade: %r but verification gives %r" % (
                                out, again), **info)
                        ctx.require([obj.GLOBAL_SOFAConventions,
                                     obj.GLOBAL_SOFAConventionsVersion] ==
                                    target.split("_"), "not upgraded", **info)
                        ctx.outcome("refused" if not out.ok else "upgraded")


def main(ctx, case):
    """Rules of the fixture on its conventions, then save and read."""
    _, n, v = case
    DEP["d"] = None
    conv = model.conv_of(n, v)
    ways = [f for f in fixture.UPGRADE.get(n, {"from_to": []})["from_to"]
            if v in f[0]]
    targets = ways[0][1] if ways else []
    optional = [k for k, s in conv.items() if not ref.mandatory(s)
                and not any(x.startswith(k + "_") for x in conv)]
    drops = [()] + [(k,) for k in optional] + [tuple(optional)]
    for drop in drops:
        for custom in ([], CUSTOMS[:1] + CUSTOMS[2:4]):
            for verify in ("auto", True, False):
                values = {}
                if n == "MultiSpeakerBRIR":
                    values = {
                        "Data_IR": np.arange(24.).reshape(2, 2, 2, 3),
                        "EmitterPosition": np.ones((2, 3)),
                        "Data_Delay": np.zeros((1, 2, 2))}
                obj, cust = build(ctx, n, v, None, drop, values, custom)
                info = {"data": [n, v], "deleted": drop,
                        "custom": bool(custom)}
                ctx.state(n, v, drop, bool(custom), verify)
                unchanged(ctx, obj, obj.upgrade_convention, None, targets,
                          info)
                unchanged(ctx, obj, obj.upgrade_convention, "GeneralFIR_1.0",
                          targets, info)
                for t in targets:
                    work = obj.copy()
                    name, version = t.split("_")
                    do(ctx, work, cust, t, fixture.UPGRADE[n][ways[0][2]],
                       model.conv_of(name, version), verify, info)
                    save(ctx, work, info)


def save(ctx, obj, info):
    path = os.path.join(ctx.dir, "up.sofa")
    v = ref.verify(ref.entries(obj), model.conv_of(
        obj.GLOBAL_SOFAConventions, obj.GLOBAL_SOFAConventionsVersion), {
            k: (t, d) for k, _, t, d in CUSTOMS}, "write")
    out = call(ctx.sf.write_sofa, path, obj)
    ctx.step()
    ctx.require(out.ok != v.error("write"), "saving upgraded data: %r"
                % out, want=sorted(v.named()), **info)
    if out.ok:
        back = call(ctx.sf.read_sofa, path, verbose=False)
        ctx.require(back.ok and ref.image(ref.entries(back.value))
                    == ref.image(ref.entries(obj)), "file of upgraded data "
                    "differs: %r" % back, **info)
        os.remove(path)
