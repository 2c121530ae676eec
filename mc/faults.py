"""Deterministic fault injection into calls that leave the package.

Every call that code of the package makes into the netCDF library, numpy, the
operating system or the web client is a numbered event (`sys.monitoring`).  A
run with `at=k` lets call k fail with an exception *instead of* being
executed; `at=None` only counts.  Calls that release resources are never
failed.
"""
import os
import sys

MODULES = ("netCDF4", "_io", "io", "posix", "os", "shutil", "tempfile",
           "requests", "json", "glob", "bs4", "cftime", "_warnings", "warnings")
RELEASE = {"close", "__exit__", "cleanup", "exit", "remove", "rmtree"}
TOOL = 3


def _module(obj):
    return str(getattr(obj, "__module__", None) or "")


def external(func, arg):
    name = getattr(func, "__name__", "")
    if name in RELEASE:
        return False
    mods = [_module(func)]
    owner = getattr(func, "__objclass__", None)
    if owner is None:
        owner = getattr(func, "__self__", None)
        owner = type(owner) if owner is not None else None
    if owner is not None:
        mods.append(_module(owner))
    if arg is not sys.monitoring.MISSING:
        mods.append(_module(type(arg)))
    return any(m == x or m.startswith(x + ".") for m in mods
               for x in MODULES)


class Faults:
    """Context manager; `fired` tells whether call `at` was reached."""

    def __init__(self, package_dir, at=None, error=None, extra=None):
        self.dir = os.path.realpath(package_dir) + os.sep
        self.at, self.error, self.extra = at, error, extra
        self.n, self.fired, self.name = 0, False, None
        self.names = []

    def __call__(self, code, offset, func, arg):
        mon = sys.monitoring
        if not code.co_filename.startswith(self.dir):
            return mon.DISABLE
        if not external(func, arg) and not (
                self.extra and self.extra(func, arg)):
            return None
        n, self.n = self.n, self.n + 1
        if self.at is None:
            self.names.append(getattr(func, "__name__", repr(func)))
        if n == self.at:
            self.fired = True
            self.name = getattr(func, "__name__", repr(func))
            raise self.error
        return None

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "verif-faults")
        mon.register_callback(TOOL, mon.events.CALL, self)
        mon.set_events(TOOL, mon.events.CALL)
        return self

    def __exit__(self, *args):
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.CALL, None)
        mon.free_tool_id(TOOL)
        return False
