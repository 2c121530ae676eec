"""Reference model of a SOFA object and of the rules of the standard.

Written from the documentation and the properties, not from the code under
test, and deliberately naive.  Entries are kept in a plain dict; every rule is
evaluated from scratch from the current content only.
"""
import numpy as np

from . import fixture


def sofar_name(key):
    return key.replace(":", "_").replace(".", "_")


def convention(rows):
    """{entry name: {default, flags, dimensions, type, comment}}"""
    return {sofar_name(k): v for k, v in fixture.json_dict(rows).items()}


def mandatory(spec):
    return spec["flags"] is not None and "m" in spec["flags"]


def read_only(spec):
    return spec["flags"] is not None and "r" in spec["flags"]


# --------------------------------------------------------------------------
# values
def entries(obj):
    """Entries of a real object in order."""
    return {k: v for k, v in vars(obj).items() if not k.startswith("_")}


def canon(value):
    """Strict, hashable image of a value (type, shape, bits)."""
    if isinstance(value, str):
        return ("str", str(value))
    if isinstance(value, np.ma.MaskedArray):
        return ("masked", value.shape, np.ma.getmaskarray(value).tobytes(),
                np.ma.filled(value, 0).tobytes())
    if isinstance(value, np.ndarray):
        if value.dtype.kind == "O":
            return ("obj", value.shape, repr(value.tolist()))
        if value.dtype.kind in "US":
            return ("arr", value.dtype.kind, value.shape,
                    tuple(value.ravel().tolist()))
        return ("arr", value.dtype.str, value.shape,
                np.ascontiguousarray(value).tobytes())
    if isinstance(value, np.generic):
        return ("num", value.dtype.str, value.tobytes())
    return ("py", type(value).__name__, repr(value))


def snapshot(obj):
    """Canonical content of a real object (entries only)."""
    return {k: canon(v) for k, v in entries(obj).items()}


def squeezed(value):
    """Shape without singletons and flat content as doubles / text.

    Image under which a file round trip must be the identity.
    """
    if isinstance(value, str):
        return ("text", (), (value,))
    a = np.asarray(value)
    shape = tuple(s for s in a.shape if s != 1)
    if a.dtype.kind == "S":
        return ("text", shape, tuple(
            v.decode("utf-8") for v in a.ravel().tolist()))
    if a.dtype.kind == "U":
        return ("text", shape, tuple(a.ravel().tolist()))
    if a.dtype.kind in "ifu":
        if np.ma.is_masked(value):
            return ("missing", shape, tuple(
                None if m else float(x) for x, m in zip(
                    a.ravel(), np.ma.getmaskarray(value).ravel())))
        return ("num", shape,
                np.ascontiguousarray(a, dtype="<f8").tobytes())
    return ("other", shape, repr(a))


def image(obj_entries):
    return {k: squeezed(v) for k, v in obj_entries.items()}


def diff(a, b):
    """Readable difference of two dicts."""
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            out.append("only second: %s=%r" % (k, b[k]))
        elif k not in b:
            out.append("only first: %s=%r" % (k, a[k]))
        elif a[k] != b[k]:
            out.append("%s: %r != %r" % (k, a[k], b[k]))
    return out[:6]


def store(value):
    """What an assignment stores (ValueError if not rectangular)."""
    if isinstance(value, (str, dict, np.ndarray)):
        return value
    value = np.array(value)      # ValueError for ragged input
    if value.size == 1:
        return value.reshape(-1)[0]
    if value.ndim < 2:
        value = value.reshape(1, -1)
    return value


def default_value(spec):
    """Default of a new object with the declared number of dimensions."""
    d = spec["default"]
    if not isinstance(d, list):
        return store(d)
    a = np.array(d)
    ndim = len(spec["dimensions"].split(", ")[0])
    if a.ndim == 1 and ndim > 1:
        a = a.reshape(1, -1)
    while a.ndim < ndim:
        a = a[..., None]
    return a


class Raising:
    """A value that fails while it is converted to an array."""

    def __init__(self, error):
        self.error = {e.__name__: e for e in (
            TypeError, RuntimeError, MemoryError, KeyError, AttributeError,
            OSError, KeyboardInterrupt)}[error]

    def __array__(self, *args, **kwargs):
        raise self.error("no array")


def make(v):
    """Build a value from its JSON description."""
    kind, arg = v[0], v[1]
    if kind == "s":
        return arg
    if kind == "n":
        return arg
    if kind == "list":
        return arg
    if kind == "tuple":
        return tuple(arg)
    if kind == "arr":                       # nested list, dtype
        return np.array(arg, dtype=v[2] if len(v) > 2 else float)
    if kind == "ramp":                      # shape, start
        n = int(np.prod(arg)) if arg else 1
        return (np.arange(n, dtype=float) + (
            v[2] if len(v) > 2 else 1)).reshape(arg)
    if kind == "U":
        return np.array(arg, dtype="U")
    if kind == "S":
        return np.array([a.encode("utf-8") for a in np.ravel(arg)]).reshape(
            np.shape(arg))
    if kind == "bits":
        return np.array([float.fromhex(a) if "x" in a else float(a)
                         for a in arg])
    if kind == "bits2":                     # shape (1, 1, n)
        return make(["bits", arg]).reshape(1, 1, -1)
    if kind == "raises":                    # can not be converted
        return Raising(arg)
    if kind == "py":
        return {"None": None, "dict": {"a": 1}, "complex": 1j,
                "object": np.array([None, "a"], dtype=object),
                "complexarray": np.array([[1j, 2]])}[arg]
    raise ValueError(v)


# --------------------------------------------------------------------------
# dimensions
STANDARD = "ERMNCIS"


def letters(dims):
    return [c for c in dims.split(", ")]


def is_defining(c):
    return c.islower() and c.upper() not in "ICS"


def utf8_len(v):
    return len(v.encode("utf-8")) if isinstance(v, str) else len(v)


def text_items(value):
    if isinstance(value, str):
        return [value]
    return list(np.ravel(value).tolist())


def stripped(shape):
    shape = tuple(shape)
    while shape and shape[-1] == 1:
        shape = shape[:-1]
    return shape


def fits(value, sizes):
    """Shape equals `sizes` up to trailing singletons."""
    shape = np.shape(value)
    if len(sizes) == 1:
        big = [s for s in shape if s != 1]
        return len(big) <= 1 and int(np.prod(shape)) == sizes[0]
    if len(shape) == 1:                       # 1-D array: one row
        shape = (1,) + tuple(shape)
    return stripped(shape) == stripped(sizes)


def size_along(value, pos, ndim):
    shape = np.shape(value)
    if ndim == 1:
        return int(np.prod(shape))
    return shape[pos] if pos < len(shape) else 1


class Verdict:
    def __init__(self):
        self.missing = set()
        self.types = set()
        self.names = set()
        self.shapes = set()
        self.conflict = set()     # dimension defined with different sizes
        self.values = set()
        self.case = set()
        self.deprecated = False
        self.preliminary = False
        self.dims = {}
        self.combo = {}

    @property
    def early(self):
        return bool(self.missing or self.types)

    def named(self):
        """Entries (and dimensions) that have to be named in an error."""
        if self.early:
            return self.missing | self.types
        return self.names | self.shapes | self.values | self.case

    def error(self, mode):
        if self.early:
            return True
        return bool(self.names or self.shapes or self.conflict or self.values
                    or self.case or (self.deprecated and mode == "write"))

    def warning(self, mode):
        return not self.early and (
            self.preliminary or (self.deprecated and mode == "read"))


def unit_ok(text, ref, aliases):
    """Units separated by ',' or ', ' or ' ' (one kind), each an alias."""
    want = ref.split(", ")
    for sep in (",", ", ", " "):
        have = [text] if len(want) == 1 else text.split(sep)
        if len(have) == len(want) and all(
                aliases.get(h) == w for h, w in zip(have, want)):
            return True
    return False


def value_ok(key, value, allowed, aliases):
    if allowed is None or value in allowed:
        return True
    if key in ("GLOBAL_DataType", "GLOBAL_SOFAConventions"):
        return False
    if value.lower() in allowed:
        return True
    if key.endswith("Units"):
        return unit_ok(value.lower(), allowed[0], aliases)
    return False


def verify(ent, conv, custom, mode="write", rules=None, aliases=None,
           deprecations=None):
    """Verdict for entries `ent`; custom = {name: (type, dims)}."""
    rules = fixture.RULES if rules is None else rules
    aliases = fixture.UNIT_ALIASES if aliases is None else aliases
    deprecations = fixture.DEPRECATIONS if deprecations is None \
        else deprecations
    v = Verdict()
    spec = {k: (s["type"], s["dimensions"]) for k, s in conv.items()}
    for k, (t, d) in custom.items():
        if k not in spec:
            if d is not None:
                d = "".join(c.upper() if c.upper() in STANDARD or c in ", "
                            else c.lower() for c in d)
            spec[k] = (t, d)

    # missing and types
    for k, s in conv.items():
        if mandatory(s) and k not in ent:
            v.missing.add(k)
    for k, val in ent.items():
        t = spec[k][0]
        if t == "attribute":
            ok = isinstance(val, str)
        elif t == "double":
            ok = not isinstance(val, (str, dict)) and \
                np.asarray(val).dtype.kind in "iuf"
        else:
            ok = isinstance(val, str) or (
                isinstance(val, np.ndarray) and val.dtype.kind in "US")
        if not ok:
            v.types.add(k)
    if v.early:
        return v

    # names
    plain = {k.replace("GLOBAL_", "") for k in conv}
    for k in ent:
        t = spec[k][0]
        if t == "attribute" and not k.startswith("GLOBAL_") \
                and k[:k.rindex("_")] not in ent:
            v.names.add(k)
        if t != "attribute" and "_" in k.replace("Data_", ""):
            v.names.add(k)
        if k.startswith(("PRIVATE", "API")):
            v.names.add(k)
        if k.startswith("GLOBAL") and (
                not k.startswith("GLOBAL_") or t != "attribute"):
            v.names.add(k)
        if k in custom and k not in conv and \
                k.replace("GLOBAL_", "") in plain:
            v.names.add(k)

    # dimensions
    sizes, definers = {}, {}
    longest = 0
    for k, val in ent.items():
        t, dims = spec[k]
        if dims is None:
            continue
        first = dims.split(", ")[0]
        for pos, c in enumerate(first):
            if is_defining(c):
                n = size_along(val, pos, len(first))
                sizes.setdefault(c.upper(), set()).add(n)
                definers.setdefault(c.upper(), set()).add(k)
            if c == "S":
                longest = max([longest] + [utf8_len(x)
                                           for x in text_items(val)])
    for d, s in sizes.items():
        if len(s) > 1:
            v.conflict |= definers[d]
        v.dims[d] = max(s)
    v.dims.update({"C": 3, "I": 1, "S": longest})

    for k, val in ent.items():
        t, dims = spec[k]
        if dims is None:
            continue
        found = None
        for combo in dims.split(", "):
            size = [1 if c.upper() == "S" else v.dims[c.upper()]
                    for c in combo]
            if t == "string":
                shape = (1,) if isinstance(val, str) else np.shape(val)
                ok = stripped(shape) == stripped(size)
            else:
                ok = fits(val, size)
            if ok:
                found = combo.upper()
                break
        if found is None:
            v.shapes.add(k)
        else:
            v.combo[k] = found

    # values
    for key, rule in rules.items():
        k = sofar_name(key)
        if k not in ent:
            continue
        val = ent[k]
        if not value_ok(k, val, rule["value"], aliases):
            v.values.add(k)
        for dep in rule.get("general", []):
            if sofar_name(dep) not in ent:
                v.values.add(sofar_name(dep))
        specific = rule.get("specific", {})
        if not isinstance(val, str):
            continue
        hit = None
        if val in specific:
            hit = specific[val]
        elif k not in ("GLOBAL_DataType", "GLOBAL_SOFAConventions") \
                and val.lower() in specific:
            hit = specific[val.lower()]
        for dep, want in (hit or {}).items():
            if dep == "_dimensions":
                for d, allowed in want.items():
                    if v.dims[d] not in allowed["value"]:
                        v.values.add("Dimension " + d)
            else:
                dep = sofar_name(dep)
                if dep not in ent or not value_ok(
                        dep, ent[dep], want, aliases):
                    v.values.add(dep)

    if mode == "write":
        for k, val in ent.items():
            if k.endswith("Units") and isinstance(val, str) \
                    and val != val.lower():
                v.case.add(k)
    v.deprecated = ent["GLOBAL_SOFAConventions"] in \
        deprecations["GLOBAL:SOFAConventions"]
    v.preliminary = float(ent["GLOBAL_SOFAConventionsVersion"]) < 1
    return v


def offenders(message, candidates):
    """Names listed as offending ('- name ...') in a message."""
    found = set()
    for line in message.splitlines():
        line = line.strip()
        if not line.startswith("- "):
            continue
        words = line[2:].split()
        if not words:
            continue
        if words[0] == "Dimension" and len(words) > 1:
            found.add("Dimension " + words[1])
        elif words[0] in candidates:
            found.add(words[0])
    return found


def names_of(v, ent, conv, custom):
    return set(ent) | set(conv) | set(custom) | v.named()


def judge(ctx, obj, v, mode="write", label=None):
    """Compare Sofa.verify(raise) of a real object with the verdict."""
    from .engine import call
    ent = entries(obj)
    out = call(obj.verify, "raise", mode)
    want = v.error(mode)
    if want and not out.raised(ValueError):
        ctx.fail("verify accepts data that violate the standard: %s%s" % (
            sorted(v.named() | v.conflict) or "deprecated",
            "" if out.ok else " (raised %r)" % out.exc),
            got=repr(out), label=label)
    if not want and not out.ok:
        ctx.fail("verify refuses valid data: %s" % out.exc, label=label)
    if want:
        got = offenders(str(out.exc), set(ent) | v.named() | v.missing)
        # identity entries are named for deprecations
        if v.deprecated and mode == "write" and not v.early:
            got.discard("GLOBAL_SOFAConventions")
        need = v.named()
        if v.conflict:
            if not (got & v.conflict):
                ctx.fail("conflicting sizes not named", got=sorted(got),
                         want=sorted(v.conflict), label=label)
        elif got != need:
            ctx.fail("verify names %s instead of %s" % (
                sorted(got), sorted(need)), text=str(out.exc), label=label)
    warn = bool(out.warnings)
    if not want and warn != v.warning(mode):
        ctx.fail("verify warnings: %r, expected %s" % (
            out.warnings, v.warning(mode)), label=label)
    return out
