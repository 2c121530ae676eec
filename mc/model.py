"""Operational reference model of a SOFA object (RefSofa) plus the operations
that drive the model and the real object side by side.

Operations are JSON lists, so histories can be stored and replayed:

    ["set", name, value]          obj.name = value
    ["del", name]                 del obj.name   (or obj.delete(name))
    ["delete", name]
    ["add", name, value, dtype, dimensions]
    ["attr", name, value]
    ["prot", bool]
    ["missing", mandatory, optional]
    ["verify", issue_handling, mode]
    ["dim", letter]               obj.get_dimension(letter)
    ["inplace", name, "shape" or "values"]   change an array in place
    ["copy"]                      continue with the copy
    ["trip"]                      continue with the object read from a file
    ["inspect"] / ["info", what] / ["listdim"]
    ["upgrade", target]

`value` is described as understood by ref.make.
"""
import os

import numpy as np

from . import fixture, ref
from .engine import call

METHODS = {"verify", "copy", "inspect", "delete", "add_missing", "info",
           "add_variable", "add_attribute", "get_dimension",
           "upgrade_convention"}
# refused, the kind of error is not specified
ANY_ERROR = (TypeError, ValueError, AttributeError, KeyError)
PROPERTIES = {"protected", "list_dimensions"}

_conv = {}


def conv_of(name, version):
    key = (name, version)
    if key not in _conv:
        for (n, v, _), rows in fixture.SPEC.items():
            if (n, v) == key:
                _conv[key] = ref.convention(rows)
    return _conv[key]


class RefSofa:
    def __init__(self, name, version, mandatory=False):
        self.conv = conv_of(name, version)
        self.ent = {}
        for k, s in self.conv.items():
            if mandatory and not ref.mandatory(s):
                continue
            self.ent[k] = ref.default_value(s)
        self.custom = {}
        self.protected = True
        self.id = (name, version)

    def clone(self):
        new = object.__new__(RefSofa)
        new.conv, new.id = self.conv, self.id
        new.ent = dict(self.ent)
        new.custom = dict(self.custom)
        new.protected = self.protected
        return new

    # every method returns the expected exception types (None: succeeds)
    def set(self, name, value):
        if name in PROPERTIES:
            return ANY_ERROR
        if self.protected:
            if name not in self.ent:
                return (TypeError,)
            if name in self.conv and ref.read_only(self.conv[name]):
                return (TypeError,)
        try:
            val = ref.store(value)
        except ValueError:
            return (ValueError,)
        self.ent[name] = val
        return None

    def delete(self, name):
        if name not in self.ent:
            return ANY_ERROR
        if self.protected and name in self.conv \
                and ref.mandatory(self.conv[name]):
            return (TypeError,)
        del self.ent[name]
        self.custom.pop(name, None)
        return None

    def add(self, name, value, dtype, dims):
        if name in self.ent or name in METHODS or name in PROPERTIES:
            return (ValueError,)
        if dtype not in ("attribute", "double", "string"):
            return (ValueError,)
        if dtype == "attribute":
            var = name.rpartition("_")[0]
            if name.count("_") != 1 and not (
                    name.count("_") == 2 and name.startswith("Data_")
                    and var in self.ent):
                return (ValueError,)
            if var != "GLOBAL" and var not in self.ent:
                return (ValueError,)
            dims = None
        else:
            if set("_./") & set(name) or dims is None:
                return (ValueError,)
            if dtype == "string" and not dims.upper().endswith("S"):
                return (ValueError,)
            if dtype == "double" and "S" in dims.upper():
                return (ValueError,)
        try:
            val = ref.store(value)
        except ValueError:
            return (ValueError,)
        self.ent[name] = val
        if name not in self.conv:
            self.custom[name] = (dtype, dims)
        self.protected = True
        return None

    def add_missing(self, mandatory, optional):
        added = []
        for k, s in self.conv.items():
            m = ref.mandatory(s)
            if k not in self.ent and ((m and mandatory)
                                      or (not m and optional)):
                self.ent[k] = ref.store(s["default"])
                added.append(k)
        self.protected = True
        return added

    def verdict(self, mode="write", **kw):
        return ref.verify(self.ent, self.conv, self.custom, mode, **kw)

    def key(self):
        """Canonical model state."""
        return (self.id, self.protected,
                tuple(sorted((k, ref.canon(v)) for k, v in self.ent.items()
                             if not dated(k))),
                tuple(sorted(self.custom.items())))


DATED = ("GLOBAL_DateCreated", "GLOBAL_DateModified", "GLOBAL_APIName",
         "GLOBAL_APIVersion", "GLOBAL_ApplicationName",
         "GLOBAL_ApplicationVersion")


def dated(k):
    return k in DATED


def fresh(sf, name, version="latest", mandatory=False):
    """New real object and model.  Entries filled in by the package are set to
    fixed values (in both) so that contents can be compared exactly."""
    obj = call(sf.Sofa, name, mandatory=mandatory, version=version,
               verify=False)
    if not obj.ok:
        raise obj.exc
    obj = obj.value
    if version == "latest":
        version = max((v for (n, v, _) in fixture.SPEC if n == name),
                      key=float)
    model = RefSofa(name, version, mandatory)
    for k in DATED:
        if k in model.ent:
            model.ent[k] = getattr(obj, k)
    return obj, model


def edit(v, how):
    """Change an array in place."""
    if how == "shape":
        v.shape = v.shape[::-1] if v.shape != v.shape[::-1] \
            else v.shape + (1,)
    elif v.dtype.kind in "US":
        v[...] = ""
    elif v.dtype.kind in "iuf":
        v += 1
    return v


class Pair:
    """Real object and model driven by the same operations."""

    def __init__(self, ctx, name, version="latest", mandatory=False):
        self.ctx = ctx
        self.obj, self.model = fresh(ctx.sf, name, version, mandatory)
        self.history = []
        ctx.trace()

    def apply(self, op):
        """Apply to both; returns (Out of the real call, expected)."""
        ctx, obj, model = self.ctx, self.obj, self.model
        ctx.step()
        self.history.append(op)
        kind = op[0]
        expected = None
        if kind == "set":
            expected = model.set(op[1], ref.make(op[2]))
            out = call(setattr, obj, op[1], ref.make(op[2]))
        elif kind == "del":
            expected = model.delete(op[1])
            out = call(delattr, obj, op[1])
        elif kind == "delete":
            expected = model.delete(op[1])
            out = call(obj.delete, op[1])
        elif kind == "add":
            expected = model.add(op[1], ref.make(op[2]), op[3], op[4])
            out = call(obj.add_variable, op[1], ref.make(op[2]), op[3], op[4])
        elif kind == "attr":
            expected = model.add(op[1], ref.make(op[2]), "attribute", None)
            out = call(obj.add_attribute, op[1], ref.make(op[2]))
        elif kind == "prot":
            model.protected = op[1]
            out = call(setattr, obj, "protected", op[1])
        elif kind == "missing":
            expected = None
            model.add_missing(op[1], op[2])
            out = call(obj.add_missing, op[1], op[2])
        elif kind == "verify":
            how, mode = op[1], op[2]
            v = model.verdict(mode)
            if how == "raise":
                expected = (ValueError,) if v.error(mode) else None
            else:
                if v.missing:
                    prot = model.protected
                    model.add_missing(True, False)
                    model.protected = prot
            out = call(obj.verify, how, mode)
        elif kind == "dim":
            v = model.verdict()
            if v.missing:
                prot = model.protected
                model.add_missing(True, False)
                model.protected = prot
                v2 = model.verdict()
                v2.types |= v.types
                v = v2
            if v.types or v.shapes or v.conflict or op[1] not in v.dims:
                expected = (ValueError,)
            out = call(obj.get_dimension, op[1])
            if expected is None and out.ok and out.value != v.dims[op[1]]:
                self.fail("get_dimension(%s) is %r instead of %r" % (
                    op[1], out.value, v.dims[op[1]]))
        elif kind == "copy":
            out = call(obj.copy)
            if out.ok:
                self.obj = out.value
        elif kind == "trip":
            v = model.verdict("write")
            expected = (ValueError,) if v.error("write") else None
            out = self.trip()
        elif kind == "inspect":
            v = model.verdict()
            if v.missing:
                prot = model.protected
                model.add_missing(True, False)
                model.protected = prot
            out = call(obj.inspect)
        elif kind == "inplace":
            # the user changes an array (not by assigning to the entry)
            v = model.ent.get(op[1])
            if isinstance(v, np.ndarray):
                model.ent[op[1]] = edit(v.copy(), op[2])
                out = call(edit, getattr(obj, op[1]), op[2])
            else:
                out = call(int)
        elif kind == "badprot":
            expected = (ValueError,)
            out = call(setattr, obj, "protected", ref.make(op[1]))
        elif kind == "upgrade":
            out = call(obj.upgrade_convention, op[1])
        elif kind == "info":
            known = set(model.ent) | {"all", "mandatory", "optional",
                                      "read only", "data"}
            expected = None if op[1] in known else (ValueError,)
            out = call(obj.info, op[1])
        else:
            raise ValueError(op)
        if expected is None and not out.ok:
            self.fail("%s raised %r" % (op, out.exc))
        if expected is not None and not out.raised(*expected):
            self.fail("%s should raise %s but %s" % (
                op, [e.__name__ for e in expected],
                "succeeded" if out.ok else "raised %r" % out.exc))
        return out, expected

    def trip(self):
        """Write and read; the model is only changed by normalisation."""
        ctx, model = self.ctx, self.model
        path = os.path.join(ctx.dir, "trip.sofa")
        out = call(ctx.sf.write_sofa, path, self.obj)
        if out.ok:
            out = call(ctx.sf.read_sofa, path, verbose=False)
            if out.ok:
                self.obj = out.value
        if os.path.exists(path):
            os.remove(path)
        if out.ok:
            # values come back as stored in the file: compare by image and
            # continue with the values read
            got = ref.entries(self.obj)
            if ref.image(got) != ref.image(model.ent):
                self.fail("file round trip changed data: %s" % ref.diff(
                    ref.image(model.ent), ref.image(got)))
            model.ent = dict(got)
            model.protected = True
        return out

    # ---------------------------------------------------------------------
    def fail(self, message, **detail):
        self.ctx.fail(message, history=self.history,
                      object=list(self.model.id), **detail)

    def check_content(self):
        """Entries and protection of the real object equal the model."""
        got = ref.snapshot(self.obj)
        want = {k: ref.canon(v) for k, v in self.model.ent.items()}
        if got != want:
            self.fail("content differs: %s" % ref.diff(want, got))

    def check_protection(self):
        """Protection is never lost.  (Operations may switch it on.)"""
        real = bool(self.obj.protected)
        if self.model.protected and not real:
            self.fail("the object is not protected any more")
        if self.history[-1:] == [["prot", False]] and real:
            self.fail("protection can not be switched off")
        self.model.protected = real


def explore(ctx, make, ops, prefix, depth, enabled, check, use=None):
    """All histories that start with `prefix` (op indices), up to `depth`
    operations.  Every history is executed from scratch on real objects and
    checked after its last operation."""
    stack = [tuple(prefix)]
    while stack:
        h = stack.pop()
        pair = make()
        ok = True
        for n, i in enumerate(h):
            if not enabled(pair.model, ops[i]):
                ok = False
                break
            last = n == len(h) - 1
            out, expected = pair.apply(ops[i])
            if last:
                check(pair, out, expected)
            else:
                pair.model.protected = bool(pair.obj.protected)
        if not ok:
            continue
        ctx.state(pair.model.key())
        if len(h) < depth:
            stack.extend(h + (i,) for i in (
                range(len(ops)) if use is None else use))


def histories(ops, depth):
    """All histories of exactly `depth` operations (as index tuples)."""
    if depth == 0:
        yield ()
        return
    for h in histories(ops, depth - 1):
        for i in range(len(ops)):
            yield h + (i,)


def file_dump(path):
    """Content of a netCDF file as seen by the netCDF library alone."""
    import netCDF4
    with netCDF4.Dataset(path) as f:
        f.set_auto_maskandscale(False)
        f.set_auto_chartostring(False)
        out = {
            "format": f.data_model,
            "groups": sorted(f.groups),
            "dims": {k: d.size for k, d in f.dimensions.items()},
            "attrs": {a: attr_canon(f.getncattr(a)) for a in f.ncattrs()},
            "vars": {}}
        for name, var in f.variables.items():
            out["vars"][name] = {
                "dtype": str(var.dtype), "dims": tuple(var.dimensions),
                "shape": tuple(var.shape),
                "bytes": np.ascontiguousarray(var[...]).tobytes(),
                "attrs": {a: attr_canon(var.getncattr(a))
                          for a in var.ncattrs()}}
    return out


def attr_canon(v):
    return v if isinstance(v, str) else ref.canon(v)
