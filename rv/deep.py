"""Fingerprint of everything reachable from a python object, to tell whether a call modified what it was passed."""
import hashlib
import types

import numpy as np
import pandas
from astropy.coordinates import SkyCoord


def _walk(o, out, seen, path):
    if isinstance(o, (str, bytes, int, float, complex, bool, type(None), np.generic)):
        out.append((path, type(o).__name__, repr(o)))
        return
    if isinstance(o, (type, types.FunctionType, types.MethodType, types.BuiltinFunctionType, types.ModuleType)):
        out.append((path, "callable", getattr(o, "__qualname__", str(o))))
        return
    if id(o) in seen:
        out.append((path, "seen", str(seen[id(o)])))
        return
    seen[id(o)] = len(seen)
    if isinstance(o, np.ndarray):
        v = [repr(x) for x in o.ravel()] if o.dtype.hasobject else np.ascontiguousarray(o).tobytes()
        out.append((path, "ndarray", str((o.dtype, o.shape, o.strides, o.flags.writeable, hashlib.sha1(str(v).encode() if isinstance(v, list) else v).hexdigest()))))
    elif isinstance(o, pandas.DataFrame):
        out.append((path, "DataFrame", repr((list(o.columns), [str(t) for t in o.dtypes], list(o.index)[:50]))))
        for k, c in enumerate(o.columns):
            _walk(np.array(o.iloc[:, k].values), out, {}, f"{path}[{c!r}]")
    elif isinstance(o, SkyCoord):
        out.append((path, "SkyCoord", repr((o.frame.name, np.asarray(o.spherical.lon.deg).tolist(), np.asarray(o.spherical.lat.deg).tolist()))))
    elif isinstance(o, dict):
        out.append((path, type(o).__name__, repr([(type(k).__name__, repr(k)) for k in o])))
        for k, v in o.items():
            _walk(v, out, seen, f"{path}[{k!r}]")
        if type(o) is not dict:
            _attrs(o, out, seen, path)
    elif isinstance(o, (list, tuple)):
        out.append((path, type(o).__name__, str(len(o))))
        for k, v in enumerate(o):
            _walk(v, out, seen, f"{path}[{k}]")
        if type(o) not in (list, tuple):
            _attrs(o, out, seen, path)
    elif isinstance(o, (set, frozenset)):
        out.append((path, type(o).__name__, repr(sorted(map(repr, o)))))
    else:
        out.append((path, type(o).__name__, ""))
        _attrs(o, out, seen, path)


def _attrs(o, out, seen, path):
    d = getattr(o, "__dict__", None)
    if d is not None:
        out.append((path, "attributes", repr(sorted(d))))
        for k in sorted(d):
            _walk(d[k], out, seen, f"{path}.{k}")


def fingerprint(o):
    out = []
    _walk(o, out, {}, "")
    return out


def difference(a, b):
    """First differing item, or None."""
    if a == b:
        return None
    for x, y in zip(a, b):
        if x != y:
            return f"{x} became {y}"[:400]
    return f"{len(a)} items became {len(b)}"
