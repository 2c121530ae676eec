"""A stand-in for https://www.sofaconventions.org below `requests`.

`requests.adapters.HTTPAdapter.send` is replaced, everything above it (session,
redirects, decoding, error classes) is the real library; no socket is opened.
"""
import contextlib
import io
import re
import sys
import urllib.parse

import requests
import requests.adapters
from urllib3.exceptions import ProtocolError
from urllib3.response import HTTPResponse

HOST = "www.sofaconventions.org"
STATUS = {"404": 404, "403": 403, "429": 429, "500": 500, "503": 503}
FAULTS = ["connect", "timeout", "read timeout", "ssl", "interrupt", "body",
          "body interrupt"] + list(STATUS)


class Site:
    """published: {file name: (deprecated, bytes)}; fault: (request, kind)"""

    def __init__(self, published, fault=None, style=0):
        self.published = published
        self.fault = fault or {}
        self.style = style
        self.log = []

    def page(self, deprecated):
        base = "/conventions/" + ("deprecated/" if deprecated else "")
        names = [n for n, (d, _) in self.published.items()
                 if d == deprecated]
        lines = ['<a href="../">Parent</a>', '<a href="?C=N;O=D">Name</a>',
                 '<a href="%s">deprecated</a>' % ("deprecated/"),
                 '<a href="readme.txt">readme</a>']
        for i, n in enumerate(names):
            href = [n, base + n, "https://" + HOST + base + n][
                (i + self.style) % 3]
            lines.append('<td><a href="%s">%s</a></td>' % (href, n))
        if self.style % 2:
            lines.reverse()
        return ("<html><body><p>conventions</p>" + "\n".join(lines)
                + "</body></html>").encode()

    def find(self, url):
        parts = urllib.parse.urlsplit(url)
        path = re.sub("/+", "/", urllib.parse.unquote(parts.path))
        if parts.hostname != HOST or not path.startswith("/conventions/"):
            return None
        path = path[len("/conventions/"):]
        if path in ("", "deprecated/", "deprecated"):
            return self.page(path != "")
        dep = path.startswith("deprecated/")
        name = path[len("deprecated/"):] if dep else path
        if name in self.published and self.published[name][0] == dep:
            return self.published[name][1]
        return None

    def send(self, adapter, request, **kwargs):
        n = len(self.log)
        self.log.append(request.url)
        kind = self.fault.get(n)
        if kind == "connect":
            raise requests.exceptions.ConnectionError("no connection")
        if kind == "timeout":
            raise requests.exceptions.ConnectTimeout("time-out")
        if kind == "read timeout":
            raise requests.exceptions.ReadTimeout("time-out")
        if kind == "ssl":
            raise requests.exceptions.SSLError("certificate")
        if kind == "interrupt":
            raise KeyboardInterrupt()
        data, status = self.find(request.url), 200
        if kind in STATUS:
            data, status = b"<html><a href='Zz_1.0.csv'>no</a></html>", \
                STATUS[kind]
        elif data is None:
            data, status = b"<html>not found</html>", 404
        body = io.BytesIO(data) if kind not in ("body", "body interrupt") \
            else Broken(data, kind)
        raw = HTTPResponse(body=body, status=status, preload_content=False,
                           headers={"Content-Type": "text/html"})
        return adapter.build_response(request, raw)


class Broken(io.BytesIO):
    """Body that breaks after the first bytes."""

    def __init__(self, data, kind):
        super().__init__(data[:max(1, len(data) // 2)])
        self.kind = kind

    def read(self, *args):
        out = super().read(*args)
        if not out:
            if self.kind == "body":
                raise ProtocolError("connection broken")
            raise KeyboardInterrupt()
        return out

    def readinto(self, b):
        out = self.read(len(b))
        b[:len(out)] = out
        return len(out)


class Run:
    __slots__ = ("exc", "stdout", "asked", "log")

    def __repr__(self):
        return "Run(exc=%r, asked=%d, requests=%d, stdout=%r)" % (
            self.exc, self.asked, len(self.log), self.stdout[-400:])


class Keyboard(io.TextIOBase):
    def __init__(self, answer):
        self.answer, self.asked = answer, 0

    def readline(self, *_):
        self.asked += 1
        if self.answer == "interrupt":
            raise KeyboardInterrupt()
        return "" if self.answer == "eof" else self.answer + "\n"


def update(sf, site, path=None, assume_yes=False, answer="y",
           look=None, printed=True):
    """Run update_conventions against the site; look is called as soon as it
    has ended (while an exception is alive)."""
    run = Run()
    original = requests.adapters.HTTPAdapter.send
    keyboard, stdin = Keyboard(answer), sys.stdin
    out = io.StringIO()
    run.exc = None
    requests.adapters.HTTPAdapter.send = \
        lambda adapter, request, **kw: site.send(adapter, request, **kw)
    sys.stdin = keyboard
    try:
        with contextlib.redirect_stdout(out if printed else None):
            try:
                kw = {} if path is None else {"conventions_path": path}
                sf.update_conventions(assume_yes=assume_yes, **kw)
                if look is not None:
                    look(None)
            except (Exception, KeyboardInterrupt) as e:
                if look is not None:
                    look(e)
                e.__traceback__ = None
                run.exc = e
    finally:
        requests.adapters.HTTPAdapter.send = original
        sys.stdin = stdin
    run.stdout, run.asked, run.log = out.getvalue(), keyboard.asked, site.log
    return run
