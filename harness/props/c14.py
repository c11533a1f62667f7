"""C14: shared hadrons go to the nearest parton; clusters."""
import math
from fractions import Fraction

import numpy as np

import graphicle as gcl

from ..events import LN2, event, graph, lattice, momenta
from ..evproj import abstract, concrete, fingerprint
from ..masks import project
from ..big import big, fixed
from ..proj import BadProjection, out

EMPTY = {"t": "g", "op": "", "names": [], "kids": []}
POWERS = [-1.0, -0.5, -0.1, 0.0, 0.1, 0.5, 1.0]


def shared(rng):
    """Two partons, one hadronisation vertex and well over a hundred hadrons."""
    n = rng.randint(130, 180)
    E = [[1, 3], [2, 3], [3, 4], [3, 5], [4, 6], [5, 6]] + [[6, 10 + i] for i in range(n)]
    lead = len(E) - n
    pdg = [2, -2, 5, -5, 5, -5] + [211] * n
    status = [-21, -21, -23, -23, -71, -71] + [83] * n
    final = [False] * lead + [True] * n
    return concrete({"E": E, "pdg": pdg, "status": status, "final": final}, rng)


def cases(rng, tier, generated):
    for _ in range(4 if tier == "quick" else 40):
        yield {"k": "part", "ev": crowd(rng, shared(rng)), "power": rng.randrange(7), "flat": False}
    for g in rng.sample(generated, min(len(generated), 250 if tier == "quick" else 5000)):
        ev = crowd(rng, concrete(g["ev"], rng))
        yield {"k": "part", "ev": ev, "power": rng.randrange(7), "flat": False}
        if rng.random() < 0.3:
            for i, (p, s) in enumerate(zip(ev["pdg"], ev["status"])):
                if abs(s) == 23:
                    ev["color"][i] = rng.choice([501, 502]) if p > 0 else 0
                    ev["anticolor"][i] = rng.choice([501, 502]) if p < 0 else 0
            yield {"k": "clusters", "ev": ev, "radius": rng.choice([0.3, 1.0, 2.5])}
    total = 450 if tier == "quick" else 9000
    for i in range(total):
        kind = rng.choice(["part", "part", "clusters", "clusters", "dist"])
        if kind == "part":
            yield {"k": kind, "ev": crowd(rng, event(rng, bare=rng.random() < 0.2, busy=rng.random() < 0.2)), "power": rng.choice([2, 2, rng.randrange(7)]),
                   "flat": rng.random() < 0.2, "default": rng.random() < 0.5}
        elif kind == "clusters":
            ev = crowd(rng, event(rng, busy=rng.random() < 0.2))
            radius = math.sqrt(rng.uniform(0.01, 12.0))
            yield {"k": kind, "ev": ev, "radius": squeezed(rng, ev) if rng.random() < 0.5 else round(radius, 4)}
        else:
            power = rng.randrange(7)
            point = rng.choice([lattice, lattice, crowded])
            yield {"k": kind, "power": power, "p": [point(rng) for _ in range(rng.randint(1, 5))],
                   "h": [point(rng) for _ in range(rng.randint(1, 6))]}


def crowded(rng):
    """A lattice point among few, so that distances are often close, and
    displaced a little."""
    far = rng.random() < 0.2
    k = rng.choice([0, 0, 0, 5]) if rng.random() < 0.3 else 2
    n, m = rng.choice([-1, 0, 1]), rng.choice([-1, 0, 1])
    size = rng.choice([0, 1, 10, 1000])
    return [k, n * (3 if far else 1), (m + 16 if far else m), 0, rng.randint(-size, size), rng.randint(-size, size)]


def crowd(rng, ev):
    if rng.random() < 0.5:
        ev["lat"] = [crowded(rng) for _ in ev["lat"]]
    return ev


def squeezed(rng, ev):
    """A radius next to the distance of two particles."""
    i, j = rng.choice(ev["lat"]), rng.choice(ev["lat"])
    a, b = [gcl.MomentumArray(momenta([x])) for x in (i, j)]
    d = float(a.delta_R(b)[0, 0])
    return d * (1 + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-8, -3)) if d > 1e-3 else 0.3


def dist(a, scale):
    a = np.asarray(a)
    if a.ndim != 2:
        raise BadProjection("not a matrix")
    return [[fixed(x, scale) for x in row] for row in a.tolist()]


def run(c):
    k = c["k"]
    if k == "dist":
        p = gcl.MomentumArray(momenta(c["p"]))
        h = gcl.MomentumArray(momenta(c["h"]))
        e = POWERS[c["power"]]
        scale = Fraction(10) ** 15 * Fraction(2.0 ** (-5 * e) if e < 0 else 1.0)
        if e == -0.1:
            fn = lambda: gcl.matrix.parton_hadron_distance(p, h)
        else:
            fn = lambda: gcl.matrix.parton_hadron_distance(p, h, pt_exp=e)
        return {"k": k, "p": c["p"], "h": c["h"], "power": c["power"] + 1,
                "r": out(fn, lambda a: dist(a, scale), [])}
    g = graph(c["ev"])
    before = fingerprint(g)
    ev = abstract(c["ev"], "lat", "color", "anticolor")
    if k == "clusters":
        r2 = int(round(c["radius"] ** 2 * 1e4))
        r = out(lambda: gcl.select.clusters(g, c["radius"]), project, EMPTY)
        return {"k": k, "ev": ev, "r2": r2,
                "radius2": big(Fraction(c["radius"]) ** 2 * 10**28), "r": r, "same": fingerprint(g) == before}
    if c["flat"]:
        leaves = gcl.select.leaf_masks(gcl.select.hierarchy(g))
        tree = leaves
    else:
        tree = gcl.select.hierarchy(g)
    was = project(tree)
    e = POWERS[c["power"]]
    if e == -0.1 and c.get("default"):
        fn = lambda: gcl.select.partition_descendants(g, tree)
    else:
        fn = lambda: gcl.select.partition_descendants(g, tree, e)
    r = out(fn, project, EMPTY)
    return {"k": k, "ev": ev, "power": c["power"] + 1, "tree": was, "r": r,
            "same": fingerprint(g) == before and project(tree) == was}
