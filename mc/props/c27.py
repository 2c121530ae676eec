"""C27 compiling: tables over a grammar of cells and rows are published by a
stand-in for the web site, the real update compiles them, and the compiled
files are compared with the content the tables were generated from."""
import itertools
import json
import os
import shutil

from .. import web

PROPERTY = "C27"
TECHNIQUE = ("exhaustive enumeration of tables over a grammar of cells, "
             "orders of rows and malformed rows, compiled by the real update "
             "and compared with the generated content")

# (text of the cell, compiled value)
DEFAULTS = [
    ("", ""), ("0", 0), ("1", 1), ("-1", -1), ("48000", 48000),
    ("0.5", 0.5), ("-1.25", -1.25), ("1.0", 1.0), (".5", 0.5), ("5.", 5.0),
    ("123456789.125", 123456789.125), ("0.0", 0.0), ("text", "text"),
    ("free field", "free field"), ("degree, degree, metre",
                                   "degree, degree, metre"),
    ("1 2", "1 2"), ("1;2", "1;2"), ("a[0]", "a[0]"), ("{''}", [""]),
    ("permute([0 0 0 1 0 0], [3 1 2]);", [[[0, 0, 0, 1, 0, 0]]]),
    ("permute([0 0 0 1 0 0; 0 0 0 1 0 0], [3 1 2]);",
     [[[0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 0, 0]]]),
    ("[0]", [0]), ("[1.5]", [1.5]), ("[0 0]", [0, 0]), ("[-1 2 -3]",
                                                       [-1, 2, -3]),
    ("[0 0.09 0]", [0, 0.09, 0]), ("[1,2,3]", [1, 2, 3]),
    ("[ 1 2 ]", [1, 2]), ("[0 0 1; 0 1 0]", [[0, 0, 1], [0, 1, 0]]),
    ("[0 0;1 1]", [[0, 0], [1, 1]]), ("[1; 2; 3]", [[1], [2], [3]]),
    ("[0 0.09 0; 0 -0.09 0]", [[0, 0.09, 0], [0, -0.09, 0]]),
    ("[1.0 2; 3 4.5; 5 6]", [[1.0, 2], [3, 4.5], [5, 6]]),
    (" 7 ", 7), (" padded ", "padded"), ("\u00fcber", "\u00fcber"),
    ("1.0.2", "1.0.2"), ("R\u00f8de", "R\u00f8de"), ("m", "m"),
]
FLAGS = [("", None), ("m", "m"), ("r", "r"), ("rm", "rm")]
DIMS = [("", None), ("I", "I"), ("mRn", "mRn"), ("IC, MC", "IC, MC"),
        ("I, IMS ,M", "I, IMS ,M")]
TYPES = ["attribute", "double", "string"]
COMMENTS = ["", "a comment", "caf\u00e9 \u20ac", "comma, semicolon; 1",
            'quoted "text"', "ends with GLOBAL"]
VERSIONS = [("1.0", "1.0"), ("1", "1.0"), ("0.3", "0.3"), ("10", "10.0"),
            ("2.1", "2.1"), ("", ""), ("beta", "beta"), ("11.25", "11.25")]
NAMES = {"G": "GLOBAL:Name%d", "O": "Other%d", "D": "Data.Name%d",
         "A": "Other%d:Units", "B": "Data.Name%d:Units",
         "E": "EmitterData%d"}
CLASS = {"G": 0, "O": 1, "A": 1, "E": 1, "D": 2, "B": 2}
HEADERS = ["Name\tDefault\tFlags\tDimensions\tType\tComment"]
BAD = ["Short", "Short\t1", "Short\t1\tm", "Short\t1\tm\tI",
       "Text\t[a b]\tm\tIC\tdouble\tc", "Text\t[1 2; x]\tm\tIC\tdouble\tc",
       "1\t1\tm\tI\tdouble\tc", "1.5\t1\tm\tI\tdouble\tc",
       "[1 2]\t1\tm\tI\tdouble\tc", "7\t\t\t\tstring\tc",
       "Empty\t[]\tm\tIC\tdouble\tc",
       "Semi\t[1 2;]\tm\tIC\tdouble\tc"]


def BOUNDS(tier):
    n = 6 if tier == "thorough" else 5
    return {"cells": {"default": len(DEFAULTS), "flags": len(FLAGS),
                      "dimensions": len(DIMS), "types": len(TYPES),
                      "comments": len(COMMENTS)},
            "rows": "the full product", "versions": len(VERSIONS),
            "orders": "all sequences of up to %d rows of 3 kinds and of up "
            "to %d rows of 6 kinds" % (n, n - 2), "malformed rows": len(BAD),
            "line endings": ["LF", "CRLF", "trailing tabs", "no final LF"]}


def cases(tier):
    n = 6 if tier == "thorough" else 5
    out = [["cells", i, e] for i in range(len(DEFAULTS)) for e in range(4)]
    for k in range(1, n + 1):
        for first in "GOD":
            out.append(["order", "GOD", first, k])
    for k in range(1, n - 1):
        for first in NAMES:
            out.append(["order", "GOADBE", first, k])
    out += [["versions"]] + [["bad", i] for i in range(len(BAD))]
    return out


def table(rows, ending=0):
    """Text of a table; rows are lists of cells."""
    lines = [HEADERS[0]] + ["\t".join(r) for r in rows]
    if ending == 2:
        lines = [x + "\t" * (i % 3) for i, x in enumerate(lines)]
    sep = "\r\n" if ending == 1 else "\n"
    text = sep.join(lines) + ("" if ending == 3 else sep)
    return text.encode("windows-1252")


def compiled(ctx, data, name="Table_1.0", dep=False):
    """(error, json text or None) of the real compilation."""
    path = os.path.join(ctx.dir, "compile")
    os.makedirs(path)
    ctx.step()
    try:
        r = web.update(ctx.sf, web.Site({name + ".csv": (dep, data)}), path,
                       True)
        file = os.path.join(path, "deprecated" if dep else "", name + ".json")
        text = None
        if os.path.isfile(file):
            with open(file) as f:
                text = f.read()
        return r.exc, text
    finally:
        shutil.rmtree(path)


def expect(rows):
    """rows: [(name, kind, default, flags, dims, type, comment)] (values)"""
    out = {}
    for c in (0, 1, 2):
        for name, kind, d, f, dim, t, com in rows:
            if CLASS[kind] == c:
                out[name] = {"default": d, "flags": f, "dimensions": dim,
                             "type": t, "comment": com}
    return out


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def compare(ctx, rows, want, ending, dep, info):
    exc, text = compiled(ctx, table(rows, ending), dep=dep)
    ctx.require(exc is None, "compiling raised %r" % exc, **info)
    ctx.require(text is not None, "no compiled file", **info)
    got = json.loads(text)
    ctx.require(list(got) == list(want), "entries are %s instead of %s" % (
        list(got)[:8], list(want)[:8]), **info)
    for k in want:
        ctx.require(same({x: got[k][x] for x in sorted(got[k])},
                         {x: want[k][x] for x in sorted(want[k])}),
                    "%s is %r instead of %r" % (k, got[k], want[k]), **info)
    ctx.trace()


def run(case, ctx):
    kind = case[0]
    if kind == "cells":
        (text, value), ending = DEFAULTS[case[1]], case[2]
        rows, want = [], []
        for n, (f, d, t, c, k) in enumerate(itertools.product(
                FLAGS, DIMS, TYPES, COMMENTS, "GOD")):
            name = NAMES[k] % n
            rows.append([name, text, f[0], d[0], t, c])
            want.append((name, k, value, f[1], d[1], t, c))
            ctx.state(text, f, d, t, c, k, ending)
        compare(ctx, rows, expect(want), ending, bool(ending % 2),
                {"default": text, "ending": ending})
        # cell by cell in its own table
        for n in range(0, len(rows), 97):
            compare(ctx, rows[n:n + 1], expect(want[n:n + 1]), ending, False,
                    {"row": rows[n], "ending": ending})
    elif kind == "order":
        _, kinds, first, k = case
        for seq in itertools.product(kinds, repeat=k - 1):
            seq = (first,) + seq
            rows, want = [], []
            for n, c in enumerate(seq):
                name = NAMES[c] % (9 - n)
                rows.append([name, str(n), "m", "I", "double", "c"])
                want.append((name, c, n, "m", "I", "double", "c"))
            ctx.state(seq)
            compare(ctx, rows, expect(want), n % 4, bool(n % 2),
                    {"order": seq})
    elif kind == "versions":
        for text, value in VERSIONS:
            for name, k in (("GLOBAL:Version", "G"),
                            ("GLOBAL:SOFAConventionsVersion", "G"),
                            ("GLOBAL:APIVersion", "G"),
                            ("GLOBAL:ApplicationVersion", "G"),
                            ("FirmwareVersion", "O")):
                for e in range(4):
                    ctx.state(text, name, e)
                    compare(ctx, [[name, text, "rm", "", "attribute", "c"]],
                            expect([(name, k, value, "rm", None,
                                     "attribute", "c")]), e, False,
                            {"version": text, "name": name})
                    ctx.outcome("versions")
    else:
        good = [["GLOBAL:Name", "x", "m", "", "attribute", ""],
                ["Other", "1", "m", "I", "double", "c"]]
        for pos in range(3):
            for ending in range(4):
                for dep in (False, True):
                    rows = list(good)
                    rows.insert(pos, BAD[case[1]].split("\t"))
                    ctx.state(case[1], pos, ending, dep)
                    exc, text = compiled(ctx, table(rows, ending), "Bad_0.1",
                                         dep)
                    ctx.require(exc is not None and isinstance(
                        exc, Exception) and "Bad_0.1.csv" in str(exc),
                        "malformed row: %r" % exc, row=rows[pos])
                    ctx.require(text is None, "malformed table compiled",
                                row=rows[pos])
                    ctx.trace()
                    ctx.outcome("malformed")
    ctx.sample(case)
