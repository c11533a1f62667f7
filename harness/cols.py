"""Data columns: construction and projection."""

import numpy as np

import graphicle as gcl

from .proj import BadProjection

CLASS = {"pdg": gcl.PdgArray, "pmu": gcl.MomentumArray, "color": gcl.ColorArray,
         "helicity": gcl.HelicityArray, "status": gcl.StatusArray, "mask": gcl.MaskArray,
         "edges": gcl.AdjacencyList}
WIDTH = {"pdg": 1, "pmu": 4, "color": 2, "helicity": 1, "status": 1, "mask": 1, "edges": 2}
COMPONENTS = {"pmu": ["x", "y", "z", "e"], "color": ["color", "anticolor"], "edges": ["src", "dst"]}
ALIASES = {"x": ["x", "px"], "y": ["y", "py"], "z": ["z", "pz"], "e": ["e", "pe", "E"],
           "src": ["src", "in"], "dst": ["dst", "out"], "color": ["color"], "anticolor": ["anticolor"]}
LIMIT = {"pdg": 2**31 - 1, "color": 2**31 - 1, "edges": 2**31 - 1, "helicity": 2**15 - 1, "status": 2**15 - 1}


def token(v):
    """Text of one cell, its type included."""
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return "nan" if v != v else v.hex()
    raise BadProjection(f"not a plain number: {type(v)}")


def meant(kind, v):
    """Token of the value a column of this kind holds for the input v."""
    return token(float(v) if kind == "pmu" else bool(v) if kind == "mask" else int(v))


def rows_of(x, kind):
    """Tokens of the rows of an array, a sequence of elements or a column."""
    if not isinstance(x, (np.ndarray, list, tuple)):
        raise BadProjection(f"not rows: {type(x)}")
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            raise BadProjection("not rows")
        if WIDTH[kind] > 1 and x.dtype.names is None and x.ndim != 2:
            raise BadProjection("flat")
        x = x.tolist()
    out = []
    for r in x:
        r = list(r) if isinstance(r, (tuple, list)) else [r]
        if len(r) != WIDTH[kind]:
            raise BadProjection("row length")
        out.append([token(v) for v in r])
    return out


def contents(col, kind):
    if not isinstance(col, CLASS[kind]):
        raise BadProjection(f"not a column of kind {kind}: {type(col)}")
    return rows_of(col.data, kind)


def snapshot(x):
    """Comparable deep copy of an input value."""
    if isinstance(x, np.ndarray):
        return (x.dtype.str, x.dtype.names, x.shape, x.strides, x.tobytes())
    if isinstance(x, (list, tuple)):
        return repr(x)
    return repr(list(x))
