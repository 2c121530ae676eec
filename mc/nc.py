"""Write netCDF files without the code under test."""
import netCDF4
import numpy as np


# ways to store the same content
STORAGE = {
    "classic": {"fmt": "NETCDF4_CLASSIC"}, "netcdf3": {
        "fmt": "NETCDF3_CLASSIC"}, "offset": {"fmt": "NETCDF3_64BIT_OFFSET"},
    "unlimited": {"unlimited": "MRNECIS"}, "unlimited M": {"unlimited": "M"},
    "compressed": {"zlib": True, "complevel": 9, "shuffle": False},
    "contiguous": {"contiguous": True}, "chunks": {"chunks": True},
    "big endian": {"endian": "big"}, "little endian": {"endian": "little"},
    "checksums": {"fletcher32": True},
    "small": {"chunks": True, "zlib": True, "endian": "big",
              "fletcher32": True},
}


def write(path, attrs, dims, variables, fmt="NETCDF4", unlimited="",
          chunks=False, **storage):
    """attrs {name: text}, dims {name: size},
    variables [[name, dtype, dims, data, {attr: text}, fill]]"""
    with netCDF4.Dataset(path, "w", format=fmt) as f:
        for k, v in attrs.items():
            f.setncattr(k, v)
        for k, n in dims.items():
            # (unlimited dimensions that are not used have no size)
            endless = k in unlimited and any(k in v[2] for v in variables)
            f.createDimension(k, None if endless else n)
        for name, dtype, vd, data, va, fill in variables:
            how = dict(storage)
            if chunks and len(vd):
                how["chunksizes"] = [1] * len(vd)
            if np.dtype(dtype).itemsize == 1:
                how.pop("endian", None)
            if not len(vd):
                how = {}
            var = f.createVariable(name, dtype, tuple(vd), fill_value=fill,
                                   **how)
            for k, v in va.items():
                var.setncattr(k, v)
            var.set_auto_chartostring(False)
            var[...] = data


def chars(texts, shape, width):
    """Character array (…, width) of texts given in C order."""
    raw = b"".join(t.encode("utf-8").ljust(width, b"\0") for t in texts)
    return np.frombuffer(raw, "S1").reshape(tuple(shape) + (width,))
