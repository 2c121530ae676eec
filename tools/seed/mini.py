"""Loads the sofar package of the current directory from a scratch copy with
made-up conventions (the conventions of the repository are a submodule that is
not available)."""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fixture  # noqa: E402

warnings.simplefilter("ignore")
root = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, root, True)
work = os.path.join(root, "work")
os.mkdir(work)


def load(**tree):
    shutil.copytree(os.path.join(os.getcwd(), "sofar"),
                    os.path.join(root, "sofar"),
                    ignore=shutil.ignore_patterns("sofa_conventions",
                                                  "__pycache__"))
    fixture.write_tree(os.path.join(root, "sofar", "sofa_conventions"),
                       **tree)
    sys.path.insert(0, root)
    import sofar
    assert os.path.dirname(sofar.__file__).startswith(root)
    return sofar


def path(name):
    return os.path.join(work, name)


def quiet(fn, *args, **kwargs):
    """(printed text, result, error)"""
    import contextlib
    import io
    out = io.StringIO()
    res = err = None
    with contextlib.redirect_stdout(out):
        try:
            res = fn(*args, **kwargs)
        except Exception as e:
            err = e
    return out.getvalue(), res, err


def raises(error, fn, *args, **kwargs):
    try:
        fn(*args, **kwargs)
    except error:
        return True
    return False
