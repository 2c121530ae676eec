"""C17 value rules: all rule sets of a small grammar (one or two rules; allowed
values, general and specific requirements, required dimension sizes), each on
a separate installation, x all objects over the entries they mention; and
every rule of the full fixture x every convention."""
import itertools

import numpy as np

from .. import fixture, model, objs, ref
from ..engine import call

PROPERTY = "C17"
TECHNIQUE = ("exhaustive enumeration of rule sets x objects, real "
             "verification against an independent rule evaluator")

IDENTITY = ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion")
NAME = "RuleTest"
KEYS = ["GLOBAL:Alpha", "Var:Kind", "GLOBAL:DataType", "Var"]
# values of the entries (None: absent)
DOMAIN = {
    "GLOBAL_Alpha": ["one", "ONE", "two", "three", "", None],
    "GLOBAL_Beta": ["x", "X", "z", None],
    "Var_Kind": ["one", "Two", "", None],
    "GLOBAL_DataType": ["one", "One", "two", "onetwo"],
    "Var": [[1, 1], [2, 1], [3, 1], None],
}
SIZE = {"value": [1, 3], "value_str": "1 or 3"}
SIZE2 = {"value": [2], "value_str": "2"}


def others(key):
    return [k for k in ("GLOBAL:Beta", "Var:Kind", "GLOBAL:Alpha")
            if k != key][:2]


def rules_for(key, small):
    """All rules of the grammar for one entry."""
    b, c = others(key)
    general = [None, [b], [b, c]]
    value = [None, ["one"], ["one", "two"]]
    bvals = ["x", "y"] if b == "GLOBAL:Beta" else ["one"]
    specific = [None, {"one": {b: None}}, {"one": {b: bvals}},
                {"one": {"_dimensions": {"M": SIZE}}},
                {"one": {"_dimensions": {"M": SIZE, "R": SIZE2}}},
                {"one": {b: bvals, c: None}, "two": {c: ["one"]}},
                {"two": {"_dimensions": {"M": SIZE2}, b: None},
                 "one": {c: None}}]
    if key == "Var":
        value, specific = [None], [None]
    if small:
        value, general = value[:2], general[:2]
        specific = specific[2:4] + specific[5:6]
        if key == "Var":
            specific = [None]
    for v, g, s in itertools.product(value, general, specific):
        rule = {"value": v}
        if g is not None:
            rule["general"] = g
        if s is not None:
            rule["specific"] = s
        yield rule


def sets(tier):
    out = [{}]
    for k in KEYS:
        out += [{k: r} for r in rules_for(k, False)]
    for a, b in itertools.combinations(KEYS, 2):
        out += [{a: r, b: q} for r in rules_for(a, True)
                for q in rules_for(b, True)]
        if tier == "thorough":
            out += [{b: r, a: q} for r in rules_for(b, False)
                    for q in rules_for(a, False)]
    return out


def BOUNDS(tier):
    return {"rule sets": len(sets(tier)), "values": DOMAIN,
            "rule sets of two rules": "fewer values in the quick tier",
            "rules of the fixture": len(fixture.RULES),
            "conventions": len(fixture.SPEC),
            "pairs of changed entries": "an entry and each entry its rule "
            "mentions"}


def cases(tier):
    s = sets(tier)
    out = [["sets", s[i:i + 8]] for i in range(0, len(s), 8)]
    for (n, v, _) in fixture.SPEC:
        out += [["fixture", n, v, k] for k in fixture.RULES]
    return out


def spec():
    rows = []
    for r in fixture.SPEC[("GeneralFIR", "1.0", False)]:
        if r[0].startswith("GLOBAL:"):
            if r[0] == "GLOBAL:SOFAConventions":
                r = r[:1] + (NAME,) + r[2:]
            if r[0] == "GLOBAL:DataType":
                r = (r[0], "one", None) + r[3:]
            rows.append(r)
    rows += [("GLOBAL:Alpha", "one", None, None, "attribute", ""),
             ("GLOBAL:Beta", "x", None, None, "attribute", ""),
             ("Var", [0], None, "mI", "double", ""),
             ("Var:Kind", "one", None, None, "attribute", ""),
             ("Data.IR", [0, 0], "m", "IRn", "double", ""),
             ("Size", [0], "m", "mrI", "double", "")]
    return {(NAME, "1.0", False): rows}


def mentioned(rules):
    """Entries whose value matters for a rule set."""
    out = set()
    for k, r in rules.items():
        out.add(ref.sofar_name(k))
        out |= {ref.sofar_name(x) for x in r.get("general", [])}
        for s in r.get("specific", {}).values():
            out |= {ref.sofar_name(x) for x in s if x != "_dimensions"}
            if "_dimensions" in s:
                out.add("Size")
    return out


def explore(ctx, rules):
    sf = ctx.sf
    conv = ref.convention(spec()[(NAME, "1.0", False)])
    used = mentioned(rules)
    domain = dict(DOMAIN, Size=[[1, 1], [2, 1], [3, 1], [1, 2], [2, 2]])
    domain["Var"] = [[1, 1], None]
    if len(rules) > 1 and ctx.tier != "thorough":
        domain["GLOBAL_Alpha"] = ["one", "ONE", "three", None]
        domain["GLOBAL_Beta"] = ["x", "z", None]
        domain["Size"] = [[1, 1], [2, 1]]
    names = [k for k in domain if k in used or ctx.tier == "thorough"
             and k in ("GLOBAL_Alpha", "Var_Kind")]
    for combo in itertools.product(*[domain[k] for k in names]):
        want = dict(zip(names, combo))
        # an attribute needs its variable
        if want.get("Var", 1) is None and want.get("Var_Kind", 1):
            continue
        out = call(sf.Sofa, NAME, verify=False)
        ctx.require(out.ok, "Sofa raised %r" % out.exc)
        obj = out.value
        obj.protected = False
        size = want.get("Size") or [1, 1]
        obj.Var = np.ones((size[0], 1))
        obj.Size = np.ones(size)
        obj.Data_IR = np.ones((1, size[1], 2))
        for k, v in want.items():
            if v is None:
                obj.delete(k)
            elif k not in ("Var", "Size"):
                setattr(obj, k, v)
        v = ref.verify(ref.entries(obj), conv, {}, "write", rules=rules)
        ctx.step()
        ctx.state(sorted(rules), repr(rules), sorted(want.items(), key=repr))
        ref.judge(ctx, obj, v, "write", {"rules": rules, "values": want})
        ctx.outcome("violation" if v.error("write") else "valid")
    ctx.trace()


def run(case, ctx):
    if case[0] == "sets":
        for rules in case[1]:
            ctx.isolated(explore, rules, spec=spec(), rules=rules,
                         deprecations={"GLOBAL:SOFAConventions": {}},
                         upgrade={})
    else:
        _, n, ver, key = case
        full(ctx, n, ver, key)
    ctx.sample(case[0:1])


def alphabet(k, rule):
    """Values of a text entry under the rules of the fixture."""
    vals = list(rule["value"] or []) + list(rule.get("specific", {}))
    vals = list(dict.fromkeys(vals))
    return vals + [v.upper() for v in vals] + \
        [v.title() for v in vals] + ["", "other", " "]


def full(ctx, n, ver, key):
    """One rule of the fixture on one convention."""
    conv = model.conv_of(n, ver)
    k = ref.sofar_name(key)
    if k not in conv or k in IDENTITY:
        return
    rule = fixture.RULES[key]
    obj, _ = model.fresh(ctx.sf, n, ver)
    ctx.trace()
    start = ref.entries(obj)

    def assess(info):
        for mode in ("write", "read"):
            v = ref.verify(ref.entries(obj), conv, {}, mode)
            ctx.step()
            ref.judge(ctx, obj, v, mode, dict(info, object=[n, ver]))
            ctx.outcome("violation" if v.error(mode) else "valid")
        ctx.state(n, ver, key, repr(info))

    def put(name, val):
        obj.protected = False
        if val is None:
            if name in vars(obj):
                obj.delete(name)
        else:
            setattr(obj, name, val)

    deps = set(rule.get("general", []))
    for s in rule.get("specific", {}).values():
        deps |= {d for d in s if d != "_dimensions"}
    deps = [ref.sofar_name(d) for d in sorted(deps)]
    text = conv[k]["type"] == "attribute"
    values = alphabet(key, rule) if text else [start[k]]
    for val in values + [None]:
        if val is None and any(
                x.startswith(k + "_") for x in start):
            continue        # attributes without variable: another property
        put(k, val)
        assess({"entry": k, "value": repr(val)})
        for d in deps:
            if d in IDENTITY or (d not in conv):
                continue
            other = fixture.RULES.get(
                d.replace("_", ":"), {"value": None})
            if conv[d]["type"] == "attribute":
                dvals = ["metre", "degree, degree, metre", "Hertz", "x", ""]
                dvals += list(other["value"] or [])[:2]
            else:
                dvals = []
            for dv in dvals + [None]:
                if dv is None and any(x.startswith(d + "_") for x in start):
                    continue
                put(d, dv)
                assess({"entry": k, "value": repr(val), d: repr(dv)})
            put(d, start.get(d))
        # sizes
        for dims in [s["_dimensions"] for s in rule.get(
                "specific", {}).values() if "_dimensions" in s][:1]:
            for letter in dims:
                for size in (1, 2, 3, 4, 5, 6, 9, 12):
                    keep = {}
                    sizes = {c: 1 for c in objs.defining(conv)}
                    sizes.update({c: objs.allowed_sizes(n, conv, c, True)[0]
                                  for c in sizes})
                    sizes[letter] = size
                    for name, s in conv.items():
                        if s["dimensions"] and letter in \
                                s["dimensions"].split(", ")[0].upper() \
                                and s["type"] == "double":
                            keep[name] = getattr(obj, name)
                            put(name, np.ones(objs.full_shape(
                                s["dimensions"].split(", ")[0], sizes)))
                    assess({"entry": k, "value": repr(val),
                            letter: size})
                    for name, old in keep.items():
                        put(name, old)
        put(k, start.get(k))
