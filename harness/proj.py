"""Projections from values of the implementation to values of the
specification (booleans, integers, strings, sequences, records)."""
import math

import numpy as np


class BadProjection(Exception):
    """The implementation returned something with no abstract counterpart."""


LIM = 2_000_000_000


def out(fn, proj, default):
    """Outcome of a call: errors are outcomes, never failures of the driver."""
    try:
        v = fn()
    except Exception as e:
        return {"ok": False, "exc": type(e).__name__, "v": default}
    try:
        return {"ok": True, "exc": "", "v": proj(v)}
    except Exception as e:
        return {"ok": False, "exc": f"projection:{type(e).__name__}", "v": default}


def raw(x):
    """Plain ndarray behind any mask or array object."""
    if hasattr(x, "data") and not isinstance(x, np.ndarray):
        x = x.data
    return np.asarray(x)


def bools(x):
    a = raw(x)
    if a.dtype != np.bool_ or a.ndim != 1:
        raise BadProjection(f"not a flat boolean array: {a.dtype} {a.shape}")
    return a.tolist()


def boolean(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    raise BadProjection(f"not a boolean: {type(x)}")


def integer(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
    if isinstance(x, (bool, np.bool_)) or not isinstance(x, (int, np.integer)):
        raise BadProjection(f"not an integer: {type(x)}")
    if abs(int(x)) > LIM:
        raise BadProjection("integer out of range")
    return int(x)


def ints(x):
    a = raw(x)
    if a.ndim != 1 or a.dtype.kind not in "iu":
        raise BadProjection(f"not a flat integer array: {a.dtype} {a.shape}")
    return [integer(v) for v in a.tolist()]


def text(x):
    if not isinstance(x, str):
        raise BadProjection("not a string")
    return str(x)


def num(x, scale=1):
    """Fixed-point projection of a float: class and integer value."""
    x = float(x)
    if math.isnan(x):
        return {"c": "nan", "n": 0}
    if math.isinf(x):
        return {"c": "+inf" if x > 0 else "-inf", "n": 0}
    y = x * scale
    if abs(y) > LIM:
        return {"c": "big", "n": LIM if y > 0 else -LIM}
    return {"c": "fin", "n": int(round(y))}


def nums(x, scale=1):
    a = raw(x)
    if a.ndim != 1 or a.dtype.kind not in "f":
        raise BadProjection(f"not a flat float array: {a.dtype} {a.shape}")
    return [num(v, scale) for v in a.tolist()]


def exact(x, scale=1):
    """Float that must be exactly an integer once scaled."""
    y = float(x) * scale
    if not math.isfinite(y) or y != int(y) or abs(y) > LIM:
        raise BadProjection(f"not an exact integer: {x}")
    return int(y)
