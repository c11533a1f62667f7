"""Contents of objects, and answers, as tokens."""
import enum
import numbers

import numpy as np

import graphicle as gcl

COLUMNS = (gcl.MomentumArray, gcl.PdgArray, gcl.ColorArray, gcl.HelicityArray, gcl.StatusArray, gcl.MaskArray)
FIELDS = ("pdg", "pmu", "color", "helicity", "status", "final")


def split(x, floats):
    """Skeleton of a value; its floating point numbers go to a list."""
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return ("rec", x.shape, tuple((n, split(x[n], floats)) for n in x.dtype.names))
        if x.dtype.kind in "fc":
            floats.append(np.array(x, dtype=x.dtype.kind + ("8" if x.dtype.kind == "f" else "16")).ravel())
            return ("fl", x.dtype.kind, x.shape)
        if x.dtype.kind == "O":
            return ("obj", x.shape, tuple(split(v, floats) for v in x.ravel().tolist()))
        return ("arr", x.dtype.kind, x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, COLUMNS):
        return (type(x).__name__, split(np.asarray(x.data), floats))
    if isinstance(x, gcl.AdjacencyList):
        return ("adj", split(np.asarray(x.edges), floats), split(np.asarray(x.weights), floats))
    if isinstance(x, gcl.MaskGroup):
        return ("group", x.agg_op.value, tuple((str(k), split(v, floats)) for k, v in x.items()))
    if isinstance(x, gcl.ParticleSet):
        return ("particles", tuple(split(getattr(x, f), floats) for f in FIELDS))
    if isinstance(x, gcl.Graphicle):
        return ("event", split(x.particles, floats), split(x.adj, floats))
    if isinstance(x, (bool, np.bool_)):
        return ("bool", bool(x))
    if isinstance(x, (numbers.Integral, np.integer)):
        return ("int", int(x))
    if isinstance(x, (float, complex, np.floating, np.complexfloating)):
        floats.append(np.array([x], dtype=complex if isinstance(x, (complex, np.complexfloating)) else float))
        return ("num",)
    if x is None or isinstance(x, (str, bytes, enum.Enum)):
        return ("lit", repr(x))
    if isinstance(x, (list, tuple)):
        return ("seq", tuple(split(v, floats) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    if isinstance(x, dict):
        return ("map", tuple((str(k), split(v, floats)) for k, v in x.items()))
    if hasattr(x, "tocoo"):
        c = x.tocoo()
        return ("sparse", tuple(c.shape), split(np.asarray(c.row), floats), split(np.asarray(c.col), floats),
                split(np.asarray(c.data), floats))
    return ("other", type(x).__name__)


class Tokens:
    def __init__(self):
        self.exact_ids = {}
        self.answers = {}
        self.next = 0

    def exact(self, x):
        floats = []
        try:
            key = (split(x, floats), tuple(f.tobytes() for f in floats))
        except Exception as err:
            key = ("unreadable", type(err).__name__)
        return self.exact_ids.setdefault(key, len(self.exact_ids) + 1)

    def answer(self, key, x):
        """Answers to the same call are one token if equal up to rounding."""
        floats = []
        skel = split(x, floats)
        for known, vals, tok in self.answers.setdefault((key, skel), []):
            if len(vals) == len(floats) and all(alike(a, b) for a, b in zip(vals, floats)):
                return tok
        self.next += 1
        self.answers[key, skel].append((skel, floats, self.next))
        return self.next


def alike(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.tobytes() == b.tobytes():
        return True
    fin = np.abs(a[np.isfinite(a)])
    scale = fin.max() if fin.size else 0.0
    with np.errstate(all="ignore"):
        return bool(np.allclose(a, b, rtol=1e-7, atol=1e-7 * scale, equal_nan=True))


def rebuild(x):
    """An equal object with memory of its own, made without copy()."""
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, COLUMNS):
        return type(x)(np.array(x.data))
    if isinstance(x, gcl.AdjacencyList):
        return gcl.AdjacencyList(np.array(x.edges), np.array(x.weights))
    if isinstance(x, gcl.MaskGroup):
        return gcl.MaskGroup({k: rebuild(v) for k, v in x.items()}, x.agg_op)
    if isinstance(x, gcl.ParticleSet):
        return gcl.ParticleSet(**{f: rebuild(getattr(x, f)) for f in FIELDS})
    if isinstance(x, gcl.Graphicle):
        return gcl.Graphicle(rebuild(x.particles), rebuild(x.adj))
    if isinstance(x, (list, tuple)) and not hasattr(x, "_fields"):
        return type(x)(rebuild(v) for v in x)
    return x


def kind(x):
    for t, name in ((gcl.MomentumArray, "pmu"), (gcl.PdgArray, "pdg"), (gcl.ColorArray, "col"),
                    (gcl.HelicityArray, "hel"), (gcl.StatusArray, "sta"), (gcl.MaskArray, "mask"),
                    (gcl.MaskGroup, "group"), (gcl.AdjacencyList, "adj"), (gcl.ParticleSet, "pset"),
                    (gcl.Graphicle, "event")):
        if isinstance(x, t):
            return name
    if isinstance(x, (list, tuple)) and len(x) and all(isinstance(m, gcl.MaskArray) for m in x):
        return "masks"
    if isinstance(x, np.ndarray):
        return "square" if x.dtype.kind == "f" and x.ndim == 2 and x.shape[0] == x.shape[1] > 1 else "nd"
    return "plain"
