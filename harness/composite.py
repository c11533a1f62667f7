"""Particle sets and events: contents, construction and observation."""
import json
import pathlib

import numpy as np

import graphicle as gcl

from . import cols
from .proj import BadProjection, integer

SET = ["pdg", "pmu", "color", "helicity", "status", "final"]
EVENT = SET + ["edges", "weights"]
KIND = {"final": "mask"}
CODES = [r["code"] for r in json.load(open(pathlib.Path(__file__).parent.parent / "spec" / "pdg_table.json"))]
COMMON = [1, 2, 3, 4, 5, 6, 21, 22, 23, 24, 25, 11, 12, 13, 15, 211, 111, 2212, 2112, 321, 113]


def codes(rng, n):
    pool = COMMON + [-c for c in COMMON if -c in CODES] if rng.random() < 0.6 else CODES
    return [rng.choice(pool) for _ in range(n)]


def contents(rng, n, present):
    """Rows of the columns which are present."""
    out = {}
    for f in present:
        if f == "pdg":
            out[f] = [[c] for c in codes(rng, n)]
        elif f == "pmu":
            out[f] = [[rng.choice([rng.gauss(0, 50), rng.uniform(-1e-4, 1e-4), float(rng.randint(-9, 9))])
                       for _ in range(4)] for _ in range(n)]
        elif f == "final":
            out[f] = [[rng.random() < 0.5] for _ in range(n)]
        elif f == "weights":
            out[f] = [[rng.choice([0.0, 1.0, rng.uniform(-3, 3)])] for _ in range(n)]
        elif f in ("color", "edges"):
            out[f] = [[rng.randint(-40, 600), rng.randint(-40, 600)] for _ in range(n)]
        else:
            out[f] = [[rng.choice([-23, -22, -21, -12, -9, -2, -1, 0, 1, 2, 3, 23, 91, rng.randint(-200, 200)])]
                      for _ in range(n)]
    return out


def subset(rng, fields, weights=True):
    p = [f for f in fields if rng.random() < rng.choice([0.4, 0.9])]
    if "weights" in p and "edges" not in p:
        p.remove("weights")
    return p


def array(f, rows):
    dt = {"pmu": "<f8", "weights": "<f8", "final": bool, "helicity": "<i2", "status": "<i2"}.get(f, "<i4")
    w = cols.WIDTH.get(KIND.get(f, f), 1)
    a = np.array(rows, dtype=dt).reshape(len(rows), -1)
    return a.reshape(-1) if w == 1 else a


def make(data, kind="event"):
    cls = gcl.Graphicle if kind == "event" else gcl.ParticleSet
    return cls.from_numpy(**{f: array(f, r) for f, r in data.items()})


def tokens(data, fields):
    """Abstract columns of contents: a missing one is empty."""
    return {f: [[cols.token(v) for v in r] for r in data.get(f, [])] for f in fields}


def column(obj, f, kind):
    if f == "weights":
        w = obj.adj.weights
        if not isinstance(w, np.ndarray) or w.ndim != 1 or w.dtype.kind != "f":
            raise BadProjection("weights")
        return [[cols.token(v)] for v in w.tolist()]
    if f == "edges":
        return cols.contents(obj.adj, "edges")
    col = getattr(obj.particles if kind == "event" else obj, f)
    if kind == "event" and getattr(obj, f) is not col:
        raise BadProjection("event attribute")
    return cols.contents(col, KIND.get(f, f))


def observe(fn, kind):
    """What can be seen of a particle set or an event."""
    fields = EVENT if kind == "event" else SET
    none = {"cols": {f: [] for f in fields}, "len": 0, "truth": False}
    try:
        obj = fn()
        if type(obj) is not (gcl.Graphicle if kind == "event" else gcl.ParticleSet):
            raise BadProjection("class")
        return {"ok": True, "exc": "", "cols": {f: column(obj, f, kind) for f in fields},
                "len": integer(len(obj)), "truth": bool(obj)}
    except Exception as e:
        return {"ok": False, "exc": f"{type(e).__name__}: {e}"[:80], **none}
