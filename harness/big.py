"""Projection of floats to integers of any size: <<sign, limbs>> (Big.tla)."""
import math
from fractions import Fraction

import numpy as np

from .proj import BadProjection


def big(n):
    n = int(n)
    limbs = []
    m = abs(n)
    while m:
        limbs.append(m % 10000)
        m //= 10000
    return [(n > 0) - (n < 0), limbs]


ZERO = [0, []]


def nearest(q):
    """Nearest integer to a Fraction."""
    return math.floor(q + Fraction(1, 2))


def classed(x):
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "+inf" if x > 0 else "-inf"
    return "fin"


def fixed(x, scale, s=0):
    """x in units of 2**s / scale: its class and, if finite, the nearest
    integer count."""
    c = classed(x)
    if c != "fin":
        return {"c": c, "v": ZERO}
    return {"c": c, "v": big(nearest(Fraction(float(x)) * scale * Fraction(2) ** (-s)))}


def whole(x, s=0):
    """x / 2**s, which must be an integer."""
    q = Fraction(float(x)) * Fraction(2) ** (-s)
    if q.denominator != 1:
        raise BadProjection(f"not a whole number of units: {x}")
    return big(q.numerator)


def floats(a):
    """List of the values of a flat array of floats."""
    if hasattr(a, "data") and not isinstance(a, np.ndarray):
        raise BadProjection("not an array")
    if not isinstance(a, np.ndarray) or a.ndim != 1 or a.dtype != np.dtype("<f8"):
        raise BadProjection(f"not a flat array of doubles: {type(a)}")
    return a.tolist()


def scalar(x):
    if isinstance(x, np.ndarray):
        if x.ndim:
            raise BadProjection("not a scalar")
        x = x.item()
    if isinstance(x, (bool, np.bool_)) or not isinstance(x, (int, float, np.floating, np.integer)):
        raise BadProjection(f"not a number: {type(x)}")
    return float(x)


def angle(x):
    """An angle: class, size in units of 1e-8 and its unit vector in 1e-12."""
    c = classed(x)
    if c != "fin" or abs(x) > 20:
        return {"c": c if c != "fin" else "big", "a": 0, "co": ZERO, "si": ZERO}
    return {"c": c, "a": int(round(x * 1e8)), "co": big(round(math.cos(x) * 1e12)),
            "si": big(round(math.sin(x) * 1e12))}


def hyper(x):
    """sinh of x in units of 1e-9."""
    c = classed(x)
    if c != "fin" or abs(x) > 300:
        return {"c": c if c != "fin" else "big", "v": ZERO}
    return {"c": c, "v": big(nearest(Fraction(math.sinh(x)) * 10**9))}


def expo(x):
    """Sign of x and exp of its size in units of 1e-9."""
    c = classed(x)
    if c != "fin" or abs(x) > 300:
        return {"c": c if c != "fin" else "big", "sg": 0, "v": ZERO}
    return {"c": c, "sg": (x > 0) - (x < 0), "v": big(nearest(Fraction(math.exp(abs(x))) * 10**9))}
