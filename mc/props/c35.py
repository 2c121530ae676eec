"""C35 congruency: all combinations of states of the conventions that are
published on both platforms (and failures of each request) are served by a
stand-in, the real comparison runs against it; report and saved files are
compared with the states."""
import contextlib
import io
import itertools
import json
import os
import shutil
import urllib.parse

import requests
import requests.adapters
from urllib3.response import HTTPResponse

from .. import web

PROPERTY = "C35"
TECHNIQUE = ("exhaustive enumeration of the states of two platforms and of "
             "failing requests, the real comparison runs against in-process "
             "web sites")

STATES = ["same", "first", "second", "differ", "eol", "tabs", "rows",
          "blank", "case", "end", "absent"]
SPECIAL = ["absent", "same", "first", "second", "differ"]
NAMES = ["GeneralFIR_1.0.csv", "SimpleFreeFieldHRIR_1.0.csv", "General_1.0.csv",
         "GeneralTF_2.0.csv", "GeneralString_0.2.csv"]
OLD = b"older file\n"


def BOUNDS(tier):
    return {"states of a convention": STATES, "conventions": NAMES,
            "orders of the lists": 3, "branches": 2,
            "kinds of failure": web.FAULTS, "failing request": "each",
            "folder": ["none", "empty", "with older files", "missing"]}


def cases(tier):
    out = [["states", a, b, n] for a in STATES for b in STATES
           for n in range(3)]
    out += [["faults", a, b] for a in STATES[:-1] for b in STATES[:-1]]
    out += [["special", a, n] for a in STATES for n in range(3)]
    out += [["folder", a, b] for a in STATES[:-1] for b in STATES[:-1]]
    out.append(["empty"])
    if tier == "thorough":
        out += [["deep", a, b, c, n] for a in STATES for b in STATES
                for c in STATES for n in range(3)]
        out += [["fault pairs", a, b] for a in STATES[:-1]
                for b in STATES[:-1]]
    return out


def contents(name, state):
    """Files on both platforms (None: absent)."""
    text = b"Name\tDefault\n" + name.encode() + b"\t1\nLast\t2\n"
    if state == "absent":
        return None, None
    if state == "first":
        return text, None
    if state == "second":
        return None, text
    return text, {"same": text, "differ": text.replace(b"1\n", b"3\n"),
                  "rows": b"Last\t2\n" + text[:-7],
                  "blank": text.replace(b"\t1", b"\t 1"),
                  "case": text.replace(b"Last", b"last"),
                  "end": text[:-1],
                  "eol": text.replace(b"\n", b"\r\n"),
                  "tabs": text.replace(b"2\n", b"2\t\n")}[state]


class Platforms:
    """Both web sites."""

    def __init__(self, states, branch, order=0, fault=None):
        self.files = [{}, {}]
        for name, state in states:
            for k, data in enumerate(contents(name, state)):
                if data is not None:
                    self.files[k][name] = data
        self.branch, self.order = branch, order
        self.fault = fault or {}
        self.log = []

    def names(self, k):
        names = list(self.files[k])
        if self.order == 1 or self.order == 2 and k:
            names.reverse()
        return names

    def find(self, url):
        p = urllib.parse.urlsplit(url)
        base = "/sofacoustics/SOFAtoolbox/"
        folder = "SOFAtoolbox/conventions/"
        if p.hostname == web.HOST and p.path.startswith("/conventions/"):
            name = p.path[len("/conventions/"):]
            if name:
                return self.files[0].get(name)
            return ("<html><a href='../'>Parent</a><a href='deprecated/'>"
                    "deprecated</a>" + "".join(
                        "<a href='%s%s'>%s</a>" % (
                            "/conventions/" * (i % 2), n, n)
                        for i, n in enumerate(self.names(0)))
                    + "</html>").encode()
        if p.hostname == "github.com" and \
                p.path == base + "tree/%s/%s" % (self.branch, folder):
            items = [{"name": n, "path": folder + n, "contentType": "file"}
                     for n in ["deprecated", "readme.txt"] + self.names(1)]
            return ("<html><script>%s</script></html>" % json.dumps(
                {"items": items}, separators=(",", ":"))).encode()
        prefix = base + "%s/%s" % (self.branch, folder)
        if p.hostname == "raw.githubusercontent.com" and \
                p.path.startswith(prefix):
            return self.files[1].get(p.path[len(prefix):])
        return None

    def send(self, adapter, request, **kwargs):
        n = len(self.log)
        self.log.append(request.url)
        kind = self.fault.get(n)
        errors = requests.exceptions
        if kind in ("connect", "timeout", "read timeout", "ssl"):
            raise {"connect": errors.ConnectionError,
                   "timeout": errors.ConnectTimeout,
                   "read timeout": errors.ReadTimeout,
                   "ssl": errors.SSLError}[kind](kind)
        if kind == "interrupt":
            raise KeyboardInterrupt()
        data, status = self.find(request.url), 200
        if kind in web.STATUS:
            status = web.STATUS[kind]
            data = b"<html><a href='Zz_1.0.csv'>no</a>" \
                b'"SOFAtoolbox/conventions/Zz_1.0.csv"</html>'
        elif data is None:
            data, status = b"<html>not found</html>", 404
        body = io.BytesIO(data) if kind not in ("body", "body interrupt") \
            else web.Broken(data, kind)
        raw = HTTPResponse(body=body, status=status, preload_content=False,
                           headers={"Content-Type": "text/html"})
        return adapter.build_response(request, raw)


def compare(ctx, platforms, **kwargs):
    """(exception, printed text)"""
    from sofar.update_conventions import _check_congruency
    original = requests.adapters.HTTPAdapter.send
    requests.adapters.HTTPAdapter.send = \
        lambda adapter, request, **kw: platforms.send(adapter, request, **kw)
    out, exc = io.StringIO(), None
    try:
        with contextlib.redirect_stdout(out):
            try:
                _check_congruency(**kwargs)
            except (Exception, KeyboardInterrupt) as e:
                e.__traceback__ = None
                exc = e
    finally:
        requests.adapters.HTTPAdapter.send = original
    ctx.step()
    return exc, out.getvalue()


def expected(states):
    """{convention: what has to be reported}"""
    out = {}
    for name, state in states:
        if name.startswith(("General_", "GeneralString_")):
            continue
        if state not in ("same", "eol", "tabs", "absent"):
            out[name] = {"first": "is missing in SOFAtoolbox",
                         "second": "is missing on sofaconventions.org"
                         }.get(state, "differs across platforms")
    return out


def reported(text):
    lines = [x for x in text.splitlines() if x.startswith("- ")]
    return sorted(tuple(x[2:].split(" ", 1)) for x in lines)


def folder(path):
    out = {}
    for base, _, names in os.walk(path):
        for n in names:
            with open(os.path.join(base, n), "rb") as f:
                out[os.path.relpath(os.path.join(base, n), path)] = f.read()
    return out


def plain(data):
    return data.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")


def listed(states):
    """Are there conventions on both platforms?"""
    files = [contents(n, s) for n, s in states]
    return all(any(f[k] is not None for f in files) for k in (0, 1))


def check(ctx, states, order, branch, save=None):
    ctx.state(states, order, branch, save)
    info = {"states": states, "order": order, "branch": branch}
    kwargs = {} if branch == "master" and order else {"branch": branch}
    path = os.path.join(ctx.dir, "save")
    shutil.rmtree(path, ignore_errors=True)
    before = {}
    if save in ("empty", "older"):
        os.mkdir(path)
        if save == "older":
            os.mkdir(os.path.join(path, "sofatoolbox"))
            for n in (NAMES[0], "Other_1.0.csv"):
                with open(os.path.join(path, "sofatoolbox", n), "wb") as f:
                    f.write(OLD)
        before = folder(path)
    if save:
        kwargs["save_dir"] = path
    p = Platforms(states, branch, order)
    exc, text = compare(ctx, p, **kwargs)
    if save == "missing" or not listed(states):
        ctx.require(isinstance(exc, ValueError), "unusable folder or lists: "
                    "%r, printed %r" % (exc, text), **info)
        ctx.require(not text and not (
            save == "missing" and (p.log or os.path.exists(path))),
            "refused comparison printed, downloaded or created something",
            **info)
        return
    ctx.require(exc is None, "comparison raised %r" % exc, **info)
    want = sorted(expected(states).items())
    ctx.require(reported(text) == want, "reported %s instead of %s" % (
        reported(text), want), **info)
    ctx.require(bool(text) == bool(want), "printed %r" % text, **info)
    if save:
        files = dict(before)
        for name, what in want:
            if what.startswith("differs"):
                for sub, data in zip(("sofaconventions", "sofatoolbox"),
                                     contents(name, dict(states)[name])):
                    files[os.path.join(sub, name)] = data
        got = folder(path)
        ctx.require({k: plain(v) for k, v in got.items()} == {
            k: plain(v) for k, v in files.items()},
            "saved files %s instead of %s" % (got, files), **info)
        shutil.rmtree(path)
    ctx.trace()
    ctx.outcome("differences: %d" % len(want))


def faults(ctx, states, branch, pairs):
    p = Platforms(states, branch)
    compare(ctx, p, branch=branch)
    count = len(p.log)
    plans = [{n: k} for n in range(count) for k in web.FAULTS]
    if pairs:
        plans = [{a: k, b: q} for a in range(count) for b in range(a)
                 for k in web.FAULTS for q in ("503", "connect")]
    for plan in plans:
        ctx.state(states, sorted(plan.items()))
        p = Platforms(states, branch, fault=plan)
        exc, text = compare(ctx, p, branch=branch)
        ctx.require(exc is not None and not text, "failed download: %r, "
                    "printed %r" % (exc, text), states=states,
                    failing={str(k): v for k, v in plan.items()})
        ctx.outcome(type(exc).__name__)
    ctx.trace()


def run(case, ctx):
    ctx.sf  # noqa: B018
    kind = case[0]
    if kind == "states":
        for c in STATES:
            check(ctx, [[NAMES[0], case[1]], [NAMES[1], case[2]],
                        [NAMES[3], c]], case[3], "master")
    elif kind == "special":
        for b, c in itertools.product(SPECIAL, repeat=2):
            for order in ([0, 2, 4, 1], [2, 0, 1, 4], [2, 4, 0, 1]):
                states = dict(zip((0, 1, 2, 4), (case[1], "first", b, c)))
                check(ctx, [[NAMES[k], states[k]] for k in order], case[2],
                      "development")
    elif kind == "folder":
        for save in ("empty", "older", "missing"):
            for branch in ("master", "development"):
                check(ctx, [[NAMES[0], case[1]], [NAMES[1], case[2]],
                            [NAMES[2], "differ"], [NAMES[3], "same"]], 0,
                      branch, save)
    elif kind == "faults":
        faults(ctx, [[NAMES[0], case[1]], [NAMES[1], case[2]],
                     [NAMES[3], "same"]], "master", False)
    elif kind == "fault pairs":
        faults(ctx, [[NAMES[0], case[1]], [NAMES[1], case[2]]], "master",
               True)
    elif kind == "deep":
        for d, e in itertools.product(STATES, SPECIAL):
            check(ctx, [[NAMES[0], case[1]], [NAMES[2], e],
                        [NAMES[1], case[2]], [NAMES[3], case[3]],
                        ["Aa_0.1.csv", d]], case[4], "master")
    else:
        check(ctx, [], 0, "master")
        check(ctx, [[NAMES[0], "first"]], 0, "master")
        check(ctx, [[NAMES[0], "second"]], 0, "master")
        check(ctx, [[NAMES[0], "same"]], 0, "other/branch")
    ctx.sample(case)
