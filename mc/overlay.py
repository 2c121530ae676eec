"""Private, runnable copies of the package under test.

`/repo` ships without the conventions (empty git submodule), so the code is
copied from the *current* working tree next to a synthetic conventions folder
(`fixture.py`).  Nothing is ever written to /repo.
"""
import atexit
import os
import shutil
import sys
import tempfile

from . import fixture

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"

_scratch = []
_owner = os.getpid()


def scratch_base():
    for base in ("/dev/shm", os.environ.get("TMPDIR", "/tmp"), "/tmp"):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            return base
    return None


def mkscratch(prefix="mc-"):
    """Scratch directory that is removed when the creating process ends."""
    path = tempfile.mkdtemp(prefix=prefix, dir=scratch_base())
    _scratch.append((os.getpid(), path))
    return path


def rmscratch(path):
    shutil.rmtree(path, ignore_errors=True)


def _cleanup():
    for pid, path in _scratch:
        if pid == os.getpid():
            shutil.rmtree(path, ignore_errors=True)


atexit.register(_cleanup)


def build(root, **tree):
    """Copy the package to root/sofar and add a conventions folder."""
    src = os.path.join(REPO, "sofar")
    dst = os.path.join(root, "sofar")
    shutil.copytree(
        src, dst, ignore=shutil.ignore_patterns(
            "sofa_conventions", "__pycache__", "*.pyc"))
    fixture.write_tree(os.path.join(dst, "sofa_conventions"), **tree)
    return root


def load(root):
    """Import sofar from an overlay (once per process)."""
    for name in list(sys.modules):
        if name == "sofar" or name.startswith("sofar."):
            raise RuntimeError("sofar was already imported")
    sys.path.insert(0, root)
    import sofar
    here = os.path.realpath(os.path.dirname(sofar.__file__))
    if here != os.path.realpath(os.path.join(root, "sofar")):
        raise RuntimeError("wrong copy of sofar: " + here)
    return sofar


def unload():
    """Forget an imported sofar (in a forked process only)."""
    for name in list(sys.modules):
        if name == "sofar" or name.startswith("sofar."):
            path = getattr(sys.modules[name], "__file__", None)
            if path:
                base = os.path.dirname(os.path.dirname(path))
                if base in sys.path:
                    sys.path.remove(base)
            del sys.modules[name]
