"""C37 documentation: the script that documents the conventions
(docs/resources/conventions.py) is run for made-up installations (all
combinations of conventions that are current, deprecated or absent x rules,
all kinds of rows, folders and locales); the resulting text is parsed and
compared with the installation."""
import contextlib
import io
import itertools
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

from .. import fixture, overlay

PROPERTY = "C37"
TECHNIQUE = ("exhaustive enumeration of installations of conventions x rules, "
             "the real script runs on each of them and its output is parsed "
             "and compared with the installation")

# (name, version) of made-up conventions
NAMES = [("Aa", "1.0"), ("Aa", "2.0"), ("Aa", "0.4"), ("AaB", "1.0"),
         ("Bb-E", "1.1"), ("Zz", "10.0")]
MORE = [("aA", "1.0"), ("Bb-E", "1.2")]                 # thorough
STATES = ("absent", "current", "deprecated")
RULES = {
    "none": ({}, {}),
    "upgrade": ({"Aa": [[["1.0"], ["Zz_10.0"]]]}, {}),
    "upgrades": ({"Aa": [[["0.4", "1.0"], ["Aa_2.0", "Zz_10.0"]],
                         [["0.4"], ["AaB_1.0"]]],
                  "Bb-E": [[["1.1"], ["Zz_10.0"]]]}, {}),
    "deprecation": ({}, {"Aa": "Zz", "AaB": "Aa"}),
    "both": ({"Aa": [[["0.4"], ["Aa_2.0"]], [["1.0", "2.0"], ["Zz_10.0"]]]},
             {"Aa": "other", "Bb-E": "Zz"})}
TYPES = ["attribute", "double", "string"]
FLAGS = [None, "r", "m", "rm"]
DIMS = [None, "I", "IC, MC", "mRn", "MRNE", "MS"]
DEFAULTS = ["", "text", "a, b", "1.0", 0, 1.5, [0], [[0, 0, 0], [0, 1, 0]],
            [[[1, 0]]], [""], -1, 48000.0]
COMMENTS = ["", "comment", "a: b", "with, commas and - dash", "\u00e9\u00df",
            "'quoted'", "(see _Units)", "1 and 2", "Deprecated"]
KEYS = ["GLOBAL:Key%d", "Key%d", "Data.Key%d", "Data.IR:Key%d",
        "ListenerPosition:Key%d", "key_%d"]
FOLDERS = ["plain", "deprecated", "my deprecated", "conventions",
           "\u00e4 b", "current_1.0"]
LOCALES = ["C.utf8", "C"]


def BOUNDS(tier):
    big = tier == "thorough"
    return {"conventions": ["_".join(n) for n in NAMES + MORE * big],
            "states": STATES,
            "installations": "all with at least one current convention",
            "rules": sorted(RULES),
            "rows": "all combinations of %d types, %d flags, %d dimensions, "
            "%d defaults, %d comments, kinds of names in turn" % tuple(
                map(len, (TYPES, FLAGS, DIMS, DEFAULTS, COMMENTS))),
            "folders": FOLDERS, "locales": LOCALES,
            "current folder": ["docs/resources", "docs", "/"]}


def cases(tier):
    out = [["set", a, b, tier == "thorough"]
           for a in STATES for b in STATES]
    out += [["rows", t, f] for t in TYPES for f in FLAGS]
    out += [["fixture"]]
    out += [["process", f, loc, cwd] for f in FOLDERS for loc in LOCALES
            for cwd in ("docs/resources", "docs", "/")]
    return out


def table(name, version):
    """Rows of a made-up convention."""
    return [("GLOBAL:Conventions", "SOFA", "rm", None, "attribute",
             "fixed" * (version != "1.0")),
            ("GLOBAL:SOFAConventions", name, "rm", None, "attribute",
             "Purpose of %s %s" % (name, version)),
            ("GLOBAL:SOFAConventionsVersion", version, "rm", None,
             "attribute", "The version " + version),
            ("GLOBAL:SOFAConventionsNote", "", None, None, "attribute",
             "note"),
            ("Data.IR", [[0, 0]], "m", "mrn", "double", "x " + version),
            ("Data.IR:Units", name, None, None, "attribute", "")]


def script():
    return os.path.join(overlay.REPO, "docs", "resources", "conventions.py")


def clean(path):
    for base, _, files in os.walk(path):
        for f in files:
            os.remove(os.path.join(base, f))


def install(root, spec, upgrade, deprecations):
    """Replace the installed conventions."""
    conv = os.path.join(root, "sofar", "sofa_conventions")
    clean(os.path.join(conv, "conventions"))
    for (name, ver, dep), rows in spec.items():
        base = os.path.join(conv, "conventions", *(["deprecated"] * dep),
                            "%s_%s" % (name, ver))
        with open(base + ".json", "w") as f:
            json.dump(fixture.json_dict(rows), f)
    with open(os.path.join(conv, "rules", "upgrade.json"), "w") as f:
        json.dump({k: {"from_to": [v + ["upgrade_1"] for v in rules],
                       "upgrade_1": {"move": {}, "remove": [],
                                     "message": None}}
                   for k, rules in upgrade.items()}, f)
    with open(os.path.join(conv, "rules", "deprecations.json"), "w") as f:
        json.dump({"GLOBAL:SOFAConventions": deprecations}, f)


def generate(ctx, info):
    """Text written by the script."""
    folder = os.path.join(ctx.root, "docs", "resources")
    target = os.path.join(folder, "conventions.rst")
    if not os.path.isdir(folder):
        os.makedirs(folder)
        shutil.copy(script(), folder)
        ctx.sf                                              # load package
    os.chdir(folder)
    if os.path.exists(target):
        os.remove(target)
    path = list(sys.path)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(folder, "conventions.py"))
    except Exception as e:  # noqa: BLE001
        ctx.require(False, "the script raised %r" % e, **info)
    finally:
        sys.path[:] = path
    ctx.step()
    with open(target, encoding="utf-8") as f:
        return f.read()


def parse(text):
    """(contents, [(section, name, version, label, advice+purpose, rows)])"""
    contents = re.findall(r"^\* :ref:`(.*?) <(.*?)>`$", text, re.M)
    found, section = [], None
    lines = text.split("\n")
    label = None
    current = None
    n = 0
    while n < len(lines):
        line = lines[n]
        nxt = lines[n + 1] if n + 1 < len(lines) else ""
        if nxt and set(nxt) == {"-"} and len(nxt) == len(line):
            section = line
            n += 2
            current = None
            continue
        m = re.match(r"\.\. _(.*):$", line)
        if m:
            label = m.group(1)
        m = re.match(r"\*\*(\S+) v(\S+)\*\*$", line)
        if m:
            current = [section, m.group(1), m.group(2), label, [], []]
            found.append(current)
        elif current is not None:
            m = re.match(r"   \* - (.*)$", line)
            if m:
                current[5].append([m.group(1)])
            elif line.startswith("     - ") and current[5]:
                current[5][-1].append(line[7:])
            elif current[5] and line.startswith("     "):
                current[5][-1][-1] += "\n" + line
            elif line and not line.startswith((".. ", "   :", ":ref:")):
                current[4].append(line)
        n += 1
    return contents, found


def expected_row(row):
    key, default, flags, dims, typ, comment = row
    return [key.replace(":", "_").replace(".", "_"), typ, str(default),
            dims or "", sorted(flags or ""),
            "" if key == "GLOBAL:SOFAConventions" else comment]


def judge(ctx, text, spec, upgrade, deprecations, info):
    contents, found = parse(text)
    labels = {"%s_%s" % (n, v) for n, v, _ in spec}
    want = sorted(("%s v%s%s" % (n, v, " (deprecated)" * d), "%s_%s" % (n, v))
                  for n, v, d in spec)
    ctx.require(sorted(contents) == want, "table of contents is %s instead "
                "of %s" % (sorted(contents), want), **info)
    got = sorted((s == "Deprecated", n, v) for s, n, v, *_ in found)
    want = sorted((bool(d), n, v) for n, v, d in spec)
    ctx.require(got == want, "conventions are %s instead of %s" % (got, want),
                **info)
    for section, name, version, label, words, rows in found:
        dep = section == "Deprecated"
        ctx.require(section in ("Current", "Deprecated"), "section is %s"
                    % section, **info)
        about = dict(info, convention=[name, version, dep])
        ctx.require(label == "%s_%s" % (name, version) and
                    text.count(".. _%s:\n" % label) == 1, "label is %s"
                    % label, **about)
        # (content of the json file)
        table_ = [(k, r["default"], r["flags"], r["dimensions"], r["type"],
                   r["comment"]) for k, r in fixture.json_dict(
                       spec[(name, version, dep)]).items()]
        purpose = next(r[5] for r in table_
                       if r[0] == "GLOBAL:SOFAConventions")
        ctx.require(not purpose or purpose in words, "the purpose is not "
                    "given: %s" % words, **about)
        advice = [w for w in words if w != purpose]
        rules = [r[1] for r in upgrade.get(name, []) if version in r[0]]
        if not dep:
            wanted = []
        elif name in upgrade:
            wanted = [", ".join(":ref:`%s <%s>`" % (u, u) for u in r)
                      for r in rules]
        else:
            wanted = [deprecations[name]] if name in deprecations else []
        if dep and name in upgrade and not rules and name in deprecations:
            ctx.outcome("not specified")
        else:
            ctx.require(len(advice) == len(wanted) and all(
                "deprecated" in a and "Use %s instead" % w in a
                for a, w in zip(advice, wanted)),
                "advice is %s instead of %s" % (advice, wanted), **about)
            ctx.outcome("advice" if wanted else "no advice")
        ctx.require(len(rows) == len(table_) + 1, "%d instead of %d rows" % (
            len(rows) - 1, len(table_)), **about)
        for cells, row in zip(rows[1:], table_):
            ctx.require(len(cells) == 5, "row %s has %d cells" % (
                cells, len(cells)), **about)
            m = re.match(r"(\S+) \(\*(\w+)\*\)$", cells[0])
            ctx.require(m, "name and type are %r" % cells[0], **about)
            flags = cells[3].strip()
            here = [m.group(1), m.group(2), cells[1].strip(),
                    cells[2].strip(),
                    sorted(flags.split(", ")) if flags else [],
                    cells[4].strip()]
            ctx.require(here == expected_row(row), "row is %s instead of %s"
                        % (here, expected_row(row)), **about)
    for ref_ in re.findall(r":ref:`[^`<]*<([^>]*)>`", text):
        known = labels | {"conventions"} | {
            u for r in upgrade.values() for x in r for u in x[1]}
        ctx.require(ref_ in known, "unknown reference %s" % ref_, **info)


def check(ctx, spec, upgrade, deprecations, info):
    install(ctx.root, spec, upgrade, deprecations)
    ctx.trace()
    ctx.state(sorted((k, len(v)) for k, v in spec.items()), info)
    judge(ctx, generate(ctx, info), spec, upgrade, deprecations, info)


def sets(ctx, case):
    _, first, second, big = case
    names = NAMES + MORE * big
    for rest in itertools.product(STATES, repeat=len(names) - 2):
        states = (first, second) + rest
        spec = {(a, v, s == "deprecated"): table(a, v)
                for (a, v), s in zip(names, states) if s != "absent"}
        if not any(s == "current" for s in states):
            continue
        for rule in RULES:
            check(ctx, spec, *RULES[rule], {"states": states, "rules": rule})


def rows(ctx, case):
    _, typ, flags = case
    every = [(KEYS[n % len(KEYS)] % n, d, flags, dims, typ, c)
             for n, (d, dims, c) in enumerate(itertools.product(
                 DEFAULTS, DIMS, COMMENTS))]
    for size in (1, 7, len(every)):
        for k in range(0, len(every), size * (40 if size == 1 else 1)):
            spec = {("Aa", "1.0", False): table("Aa", "1.0")
                    + every[k:k + size],
                    ("AaB", "1.0", True): every[k:k + size]
                    + table("AaB", "1.0")}
            check(ctx, spec, {}, {}, {"rows": [k, size]})


def complete(ctx, case):
    upgrade = {k: [r[:2] for r in v["from_to"]]
               for k, v in fixture.UPGRADE.items()}
    dep = fixture.DEPRECATIONS["GLOBAL:SOFAConventions"]
    text = generate(ctx, {})
    ctx.trace()
    ctx.state("fixture")
    judge(ctx, text, fixture.SPEC, upgrade, dep, {})


def process(ctx, case):
    """A process of its own in a folder of any name."""
    _, folder, loc, cwd = case
    base = overlay.mkscratch("mc-docs-")
    try:
        root = os.path.join(base, folder)
        os.makedirs(os.path.join(root, "docs", "resources"))
        overlay.build(root)
        shutil.copy(script(), os.path.join(root, "docs", "resources"))
        spec = {(a, v, n % 2 == 1): table(a, v)[:-1]
                + [("Mine", n, None, "I", "double", "\u00e9")]
                for n, (a, v) in enumerate(NAMES)}
        upgrade, dep = RULES["upgrades"]
        install(root, spec, upgrade, dep)
        env = {k: v for k, v in os.environ.items()
               if not k.startswith(("LC_", "LANG", "PYTHON"))}
        env.update({"LC_ALL": loc, "PYTHONUTF8": "0", "PYTHONPATH": root,
                    "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "utf-8",
                    "PYTHONDONTWRITEBYTECODE": "1"})
        r = subprocess.run(
            [sys.executable, os.path.join(root, "docs", "resources",
                                          "conventions.py")],
            cwd=os.path.join(root, cwd), env=env, capture_output=True,
            text=True, timeout=300, errors="replace")
        info = {"folder": folder, "locale": loc, "current folder": cwd}
        ctx.trace()
        ctx.step()
        ctx.state(*case)
        ctx.require(r.returncode == 0, "the script failed: %s"
                    % r.stderr[-600:], **info)
        with open(os.path.join(root, "docs", "resources", "conventions.rst"),
                  encoding="utf-8") as f:
            judge(ctx, f.read(), spec, upgrade, dep, info)
    finally:
        overlay.rmscratch(base)


def run(case, ctx):
    if case[0] == "process":
        process(ctx, case)
    else:
        ctx.isolated({"set": sets, "rows": rows, "fixture": complete}[
            case[0]], case)
    ctx.sample(case)
