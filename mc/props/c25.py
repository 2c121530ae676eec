"""C25 updating: the real update runs against a stand-in for the web site for
every combination of published and installed states of the conventions; the
folder afterwards is compared with what is published, a second update and all
answers are included."""
import itertools
import json
import os
import shutil

from .. import fixture, web
from ..engine import call
from . import c20

PROPERTY = "C25"
TECHNIQUE = ("exhaustive enumeration of published x installed states of "
             "conventions x answers, each executed with the real update "
             "against an in-process web site")

PUBLISHED = ["absent", "std1", "std2", "dep1", "dep2", "std1crlf",
             "dep1tabs"]
INSTALLED = ["absent", "std1", "dep1", "std1csv", "dep1csv", "std1crlf",
             "dep1tabs"]
NAMES = ["Aa_1.0", "AaB_2.0", "Zz_0.3"]
EXTRA = {"General_1.0.csv": b"excluded", "GeneralString_0.3.csv": b"too"}
ANSWERS = ["n", "", "no", "N"]
# related names
RELATED = [["Aa_1.0", "BAa_1.0"], ["Aa_1.0", "BAaB_1.0"],
           ["Aa_1.0", "Aa_1.1"], ["Aa_1.0", "Aa_11.0"], ["Aa_0.3", "Aa_3.0"],
           ["Aa_1.0", "aA_1.0"], ["Aa-E_1.0", "Aa_1.0"],
           ["Generals_1.0", "GeneralStrings_1.0"],
           ["MyGeneral_1.0", "General-E_1.0"], ["Aacsv_1.0", "Aa_1.0"],
           ["deprecated_1.0", "Aa_1.0"], ["conventions_1.0", "html_1.0"],
           ["Aa_1.0", "Aa-deprecated_1.0"], ["json_1.0", "csv_1.0"]]
_rows = {}


def rows(name, content):
    """Table of a convention in one of its contents."""
    key = (name, content)
    if key not in _rows:
        base = c20.table(fixture.SPEC[("GeneralFIR", "1.0", False)],
                         *name.split("_"))
        base = base + [("Number", 1 if content == "1" else 2.5, "m", "I",
                        "double", "first \u00e9" if content == "1"
                        else "second \u20ac")]
        _rows[key] = base
    return _rows[key]


def csv(name, state):
    """Bytes of a table; state is one of the names above."""
    data = fixture.csv_text(rows(name, state[3])).encode("windows-1252")
    if "crlf" in state:
        data = data.replace(b"\n", b"\r\n")
    if "tabs" in state:
        lines = data.split(b"\n")
        data = b"\n".join(line + b"\t" * (i % 4) if line else line
                          for i, line in enumerate(lines))
    return data


def js(name, state):
    return fixture.json_dict(rows(name, state[3]))


def install(path, states):
    os.makedirs(os.path.join(path, "deprecated"))
    for name, state in states.items():
        if state == "absent":
            continue
        base = os.path.join(path, "deprecated") if state.startswith("dep") \
            else path
        if not state.endswith("json"):
            with open(os.path.join(base, name + ".csv"), "wb") as f:
                f.write(csv(name, state))
        if not state.endswith("csv"):
            with open(os.path.join(base, name + ".json"), "w") as f:
                json.dump(js(name, state), f, indent=4)


def published(states, extra=True):
    out = {}
    for name, state in states.items():
        if state != "absent":
            out[name + ".csv"] = (state.startswith("dep"), csv(name, state))
    if extra:
        out["General_1.0.csv"] = (False, b"excluded")
        out["GeneralString_0.3.csv"] = (True, b"excluded")
    return out


def tree(path):
    out = {}
    for base, _, files in os.walk(path):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, path)] = fh.read()
    return out


def normal(data):
    lines = data.replace(b"\r\n", b"\n").split(b"\n")
    return b"\n".join(line.rstrip(b"\t") for line in lines)


def changes(inst, pub):
    """Conventions that are new, different or moved."""
    out = set()
    for name, p in pub.items():
        i = inst.get(name, "absent")
        if p != "absent" and (i == "absent" or i.endswith("json")
                              or i[:4] != p[:4]):
            out.add(name)
    return out


def check_installed(ctx, before, after, inst, pub, info):
    """The folder after a confirmed update."""
    for name, p in pub.items():
        i = inst.get(name, "absent")
        files = {f: after[f] for f in after
                 if os.path.basename(f).rsplit(".", 1)[0] == name}
        if p == "absent":
            old = {f: before[f] for f in before
                   if os.path.basename(f).rsplit(".", 1)[0] == name}
            for f, data in old.items():
                if f.endswith(".csv"):
                    ctx.require(files.get(f) == data, "%s changed although "
                                "it is not published" % f, **info)
                else:
                    ctx.require(f in files and json.loads(files[f])
                                == json.loads(data), "%s changed although "
                                "it is not published" % f, **info)
            extra = set(files) - set(old)
            ctx.require(extra <= {f[:-3] + "json" for f in old},
                        "new files %s" % sorted(extra), **info)
            continue
        base = "deprecated/" if p.startswith("dep") else ""
        want = {base + name + ".csv", base + name + ".json"}
        ctx.require(set(files) == want, "%s is installed as %s instead of %s"
                    % (name, sorted(files), sorted(want)), **info)
        ctx.require(normal(files[base + name + ".csv"])
                    == normal(csv(name, p)),
                    "%s.csv is not the published table" % name,
                    got=files[base + name + ".csv"][-80:], **info)
        got = json.loads(files[base + name + ".json"])
        ctx.require(got == js(name, p) and list(got) == list(js(name, p)),
                    "%s.json is not compiled from the published table"
                    % name, **info)
    other = {f for f in after if not any(
        os.path.basename(f).rsplit(".", 1)[0] == n for n in pub)}
    ctx.require({f: after[f] for f in other} == {
        f: before[f] for f in before if f in other}, "other files: %s"
        % sorted(other), **info)


def BOUNDS(tier):
    return {"published states": PUBLISHED, "installed states": INSTALLED,
            "conventions": 3 if tier == "thorough" else 2,
            "answers": ["y", "assume_yes"] + ANSWERS,
            "related names": RELATED, "folder": "given and inside the package",
            "second update": "always",
            "small edits": sum(len(list(edits(r)))
                               for r in range(len(SMALL)))}


def cases(tier):
    out = []
    pairs = [[p, i] for p in PUBLISHED for i in INSTALLED]
    for a in pairs:
        out.append(["pairs", a])
    for p in PUBLISHED:
        for i in INSTALLED:
            out.append(["package", [p, i]])
    if tier == "thorough":
        out += [["triples", a, b] for a in pairs for b in pairs]
    out += [["names", r] for r in RELATED]
    out.insert(0, ["fresh"])
    out += [["small", i, d] for i in range(len(SMALL))
            for d in (False, True)]
    return out


# a small table, all small edits of it are published one after the other
SMALL = [["GLOBAL:Title", "", "m", "", "attribute", ""],
         ["Var", "1", "", "I", "double", "a comment"],
         ["Var:Units", "metre, metre", "r", "", "attribute", "text  here"],
         ["Data.IR", "[0 0]", "m", "mR, nE", "double", ""]]
HEAD = ["Name", "Default", "Flags", "Dimensions", "Type", "Comment"]


def text(rows):
    return "".join("\t".join(r) + "\n" for r in [HEAD] + rows).encode(
        "windows-1252")


def edits(r):
    """All small edits in row r: other cells, moved cells, moved rows."""
    row = SMALL[r]
    for c, cell in enumerate(row):
        for new in sorted({"", cell.lower(), cell.upper(), cell.swapcase(),
                    cell + "x", cell[:-1], cell[1:], " " + cell, cell + " ",
                    cell.replace(" ", "  "), cell.replace(", ", ","),
                    cell + ".0", cell.replace("1", "1.0"), cell * 2,
                    cell[::-1], "\u00e9" + cell, cell.replace("e", "\u00e8")}):
            if new != cell and (c or new.strip()) and not (
                    c == 1 and new.strip().startswith("[") and
                    not new.strip().endswith("]")):
                yield [row[:c] + [new] + row[c + 1:]]
        if 0 < c < 5 and row[c] != row[c + 1]:
            yield [row[:c] + [row[c + 1], row[c]] + row[c + 2:]]
    yield []
    for pos in range(len(SMALL)):
        if pos != r:
            yield pos
    yield [row, ["Other", "1", "", "I", "double", ""]]


def small(ctx, r, dep):
    """Any difference of a published table is noticed and installed."""
    path = os.path.join(ctx.dir, "conventions")
    other = os.path.join(ctx.dir, "fresh")
    name = "Small_1.0.csv"
    for e in edits(r):
        if isinstance(e, int):
            rows = SMALL[:r] + SMALL[r + 1:]
            rows = rows[:e] + [SMALL[r]] + rows[e:]
        else:
            rows = SMALL[:r] + e + SMALL[r + 1:]
        info = {"installed": SMALL, "published": rows, "deprecated": dep}
        want = {}
        try:
            for p, tables in ((other, [rows]), (path, [SMALL, rows, SMALL])):
                for n, tab in enumerate(tables):
                    ctx.step()
                    run = web.update(ctx.sf, web.Site(
                        {name: (dep, text(tab))}), p, True)
                    if p == other and run.exc is not None:
                        break        # not a table
                    ctx.require(run.exc is None, "update raised %r"
                                % run.exc, **info)
                    got = tree(p)
                    key = str(tab)
                    if n and normal(text(rows)) == normal(text(SMALL)):
                        ctx.require("up to date" in run.stdout, "update "
                                    "without changes", **info)
                        continue
                    if n:
                        ctx.require("- " in run.stdout and "Small_1.0" in
                                    run.stdout, "the change is not "
                                    "announced", stdout=run.stdout, **info)
                    ctx.require(want.setdefault(key, got) == got,
                                "the result of the update differs from a "
                                "fresh installation", **info)
                if not os.path.isdir(path) and run.exc is not None:
                    ctx.outcome("malformed")
                    break
            else:
                ctx.state(rows, dep)
                ctx.trace()
                ctx.outcome("small change")
        finally:
            shutil.rmtree(path, ignore_errors=True)
            shutil.rmtree(other, ignore_errors=True)


FEW = [["std1", "absent"], ["dep1", "std1"], ["std2", "dep1"],
       ["absent", "std1"], ["std1", "std1crlf"], ["dep2", "absent"]]


def run(case, ctx):
    if case[0] == "pairs":
        for p in PUBLISHED:
            for i in INSTALLED:
                one(ctx, dict(zip(NAMES, (case[1][0], p))),
                    dict(zip(NAMES, (case[1][1], i))))
    elif case[0] == "triples":
        for c in FEW:
            one(ctx, dict(zip(NAMES, (case[1][0], case[2][0], c[0]))),
                dict(zip(NAMES, (case[1][1], case[2][1], c[1]))))
    elif case[0] == "names":
        states = [(p, i) for p in ("absent", "std1", "dep1")
                  for i in ("absent", "std1", "dep1")]
        for a in states:
            for b in states:
                one(ctx, dict(zip(case[1], (a[0], b[0]))),
                    dict(zip(case[1], (a[1], b[1]))))
    elif case[0] == "package":
        p, i = case[1]
        spec = {("GeneralTF", "2.0", False):
                fixture.SPEC[("GeneralTF", "2.0", False)]}
        ctx.isolated(package, p, i, spec=spec, upgrade={}, deprecations={
            "GLOBAL:SOFAConventions": {}})
    elif case[0] == "small":
        small(ctx, *case[1:])
    else:
        for pub in itertools.product(PUBLISHED, repeat=2):
            for exists in (False, True):
                fresh(ctx, dict(zip(NAMES, pub)), exists)
    ctx.sample(case)


def cycle(ctx, path, pub, inst, style, info):
    """All answers, confirmed update, second update on one folder."""
    sf = ctx.sf
    before = tree(path)
    need = changes(inst, pub)
    site = published(pub)
    arg = None if info.get("package") else path
    # declined
    for answer in ANSWERS[:2] if style % 3 else ANSWERS:
        ctx.step()
        r = web.update(sf, web.Site(site, style=style), arg, False, answer)
        ctx.require(r.exc is None, "declined update raised %r" % r.exc,
                    **info)
        ctx.require(tree(path) == before, "declined update (%r) changed %s"
                    % (answer, sorted(set(tree(path).items())
                                      ^ set(before.items()))), **info)
        ctx.require(r.asked == (1 if need else 0), "asked %d times"
                    % r.asked, changes=sorted(need), **info)
        ctx.outcome("declined" if need else "nothing to do")
    # confirmed
    yes = bool(style % 2)
    ctx.step()
    r = web.update(sf, web.Site(site, style=style), arg, yes, "y")
    ctx.require(r.exc is None, "update raised %r" % r.exc, **info)
    ctx.require(r.asked == (1 if need and not yes else 0),
                "asked %d times" % r.asked, **info)
    after = tree(path)
    for name in pub:
        said = any(name in line.replace(":", " ").split()
                   for line in r.stdout.splitlines()
                   if line.startswith("- "))
        ctx.require(said == (name in need), "%s is%s announced" % (
            name, "" if said else " not"), stdout=r.stdout, **info)
    if need:
        check_installed(ctx, before, after, inst, pub, info)
        ctx.outcome("updated")
    else:
        ctx.require(after == before, "update without changes modified files",
                    **info)
        ctx.require("up to date" in r.stdout, "not up to date: %s"
                    % r.stdout, **info)
    # again
    for yes in (True, False):
        ctx.step()
        r = web.update(sf, web.Site(site, style=style + 1), arg, yes, "y")
        ctx.require(r.exc is None and "up to date" in r.stdout
                    and r.asked == 0, "second update: %r" % r, **info)
        ctx.require(tree(path) == after, "second update modified files",
                    **info)


_count = [0]


def one(ctx, pub, inst):
    _count[0] += 1
    path = os.path.join(ctx.dir, "conventions")
    install(path, inst)
    info = {"published": pub, "installed": inst}
    ctx.state(sorted(pub.items()), sorted(inst.items()))
    ctx.trace()
    try:
        style = sum(PUBLISHED.index(p) for p in pub.values()) + sum(
            INSTALLED.index(i) for i in inst.values())
        cycle(ctx, path, pub, inst, style, info)
        # what is published changes back and forth: the result is the same
        # as for a fresh installation
    finally:
        shutil.rmtree(path, ignore_errors=True)


def fresh(ctx, pub, exists):
    """Into a folder that does not exist or is empty."""
    path = os.path.join(ctx.dir, "empty")
    if exists:
        os.makedirs(path)
    info = {"published": pub, "folder exists": exists}
    ctx.state(sorted(pub.items()), exists)
    ctx.trace()
    try:
        ctx.step()
        r = web.update(ctx.sf, web.Site(published(pub)), path, True)
        ctx.require(r.exc is None, "update raised %r" % r.exc, **info)
        check_installed(ctx, {}, tree(path), {}, pub, info)
        # the publication changes: every change is followed
        for j, name in enumerate(pub):
            for p in PUBLISHED:
                inst = {n: s for n, s in pub.items()}
                pub = dict(pub, **{name: p})
                before = tree(path)
                ctx.step()
                r = web.update(ctx.sf, web.Site(published(pub), style=j),
                               path, True)
                args = dict(info, before=inst, now=pub)
                ctx.require(r.exc is None, "update raised %r" % r.exc,
                            **args)
                old = kept(before)
                if changes(old, pub):
                    check_installed(ctx, before, tree(path), old, pub, args)
                else:
                    ctx.require(tree(path) == before, "update without "
                                "changes modified files", **args)
                ctx.state(sorted(inst.items()), sorted(pub.items()))
    finally:
        shutil.rmtree(path, ignore_errors=True)


def kept(files):
    """States of the installed conventions seen in a folder."""
    out = {}
    for f, data in files.items():
        name = os.path.basename(f)[:-4]
        if f.endswith(".csv"):
            for c in "12":
                if normal(data) == normal(csv(name, "std" + c)):
                    out[name] = ("dep" if f.startswith("deprecated")
                                 else "std") + c
    return out


def package(ctx, p, i):
    """The folder inside the package: the conventions can be used."""
    sf = ctx.sf
    name = NAMES[0]
    path = os.path.join(os.path.dirname(sf.__file__), "sofa_conventions",
                        "conventions")
    work = path + "-new"
    install(work, {name: i})
    for f in tree(work):
        shutil.copy(os.path.join(work, f), os.path.join(path, f))
    shutil.rmtree(work)
    info = {"published": {name: p}, "installed": {name: i}, "package": True}
    ctx.state("package", p, i)
    ctx.trace()
    cycle(ctx, path, {name: p}, {name: i}, 1, info)
    listed = call(sf.list_conventions).stdout
    n, v = name.split("_")
    final = p if p != "absent" else i
    there = any((name + ".json") == os.path.basename(f) for f in tree(path))
    ctx.require(("%s (Version %s)" % (n, v) in listed) == there,
                "listed: %s" % listed, **info)
    out = call(sf.Sofa, n, version=v, verify=False)
    ctx.require(out.ok == there, "Sofa(%r): %r" % (n, out), **info)
    if there:
        want = 1 if final[3] == "1" else 2.5
        ctx.require(out.value.Number == want, "default is %r instead of %r"
                    % (out.value.Number, want), **info)
    ctx.require(call(sf.Sofa, "GeneralTF").ok, "other convention is gone",
                **info)
