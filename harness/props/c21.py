"""C21: graphs from affinities, and clustering coefficients."""
import math
import random

import numba as nb
import numpy as np

import graphicle as gcl

from ..big import fixed
from ..proj import BadProjection, exact, num, out
from .c22 import particles, plane, rapidity

INF = 10**9
TYPES = {"<?": "b1", "bool": "b1", "<f8": "f8", "<f4": "f4", "<f2": "f2", "<i4": "i4", "<i8": "i8", "<i1": "i1"}


def affinities(rng, n):
    size = rng.choice([1, 2, 5, 100])
    low = rng.choice([0, 0, 1, -size])
    m = [[rng.randint(low, size) for _ in range(n)] for _ in range(n)]
    if rng.random() < 0.5:
        for i in range(n):
            m[i][i] = 0
    if rng.random() < 0.3:
        m = [[m[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
    if rng.random() < 0.15 and n:
        for _ in range(rng.randint(1, n)):
            m[rng.randrange(n)][rng.randrange(n)] = INF
    return m


def graph_case(rng, m):
    n = len(m)
    c = {"m": m, "order": rng.choice(["C", "C", "F", "view", "read"]), "s": rng.choice([0, 0, -3, 5])}
    if rng.random() < 0.45:
        c.update(k="cut", cut=rng.choice([v for r in m for v in r] + [0, 1]), mode=rng.choice(["max", "min", "default"]),
                 self=rng.random() < 0.5, weighted=rng.random() < 0.5)
        if rng.random() < 0.08:
            c["bad"] = rng.choice(["mode", "weighted"])
        if c["cut"] == INF and rng.random() < 0.5:
            c["cut"] = 10
    else:
        own = rng.random() < 0.5
        c.update(k="knn", knn=rng.randint(0, n if own else n - 1), self=own, weighted=rng.random() < 0.5, row=rng.random() < 0.6,
                 dtype=rng.choice([None, None, None, "<f4", "<f8", "<i4", "<?"]))
    return c


def cases(rng, tier, generated):
    quick = tier == "quick"
    for _ in range(6 if tier == "quick" else 80):     # few places, hundreds of particles
        total = rng.choice([190, 262, 280, 320])
        n = rng.randint(2, 6)
        times = [rng.randint(1, 3) for _ in range(n)]
        times[rng.randrange(n)] += total
        ps = [dict(plane(rng), m=0.0, eta=rng.uniform(-1, 1), phi=rng.uniform(-1, 1)) for _ in range(n)]
        order = [i for i, t in enumerate(times) for _ in range(t)]
        rng.shuffle(order)
        yield {"k": "places", "points": ps, "order": order, "radius": rng.choice([0.5, 1.0, 1.5, 20.0]), "pseudo": rng.random() < 0.5,
               "threads": rng.randint(1, 4), "around": rng.randint(1, 4)}
    mats = [g["m"] for g in generated if "m" in g]
    pts = [g["points"] for g in generated if "points" in g]
    for m in rng.sample(mats, min(len(mats), 400 if quick else 5000)):
        yield graph_case(rng, m)
    for p in rng.sample(pts, min(len(pts), 150 if quick else 1500)):
        yield {"k": "cluster", "points": [{"eta": a * 0.5, "phi": b * math.pi / 4, "pt": 100, "m": 0.0} for a, b in p],
               "radius": rng.choice([0.6, 0.9, 1.6]), "pseudo": True, "threads": rng.randint(1, 4), "around": rng.randint(1, 4)}
    for _ in range(900 if quick else 15000):
        p = rng.random()
        if p < 0.65:
            yield graph_case(rng, affinities(rng, rng.choice([1, 2, 3, rng.randint(1, 8)])))
        elif p < 0.75:
            yield {"k": "full", "n": rng.choice([0, 1, 2, rng.randint(0, 9)]), "self": rng.random() < 0.5,
                   "dtype": rng.choice([None, "<?", "<f8", "<i4", "<f4"])}
        else:
            spread = rng.choice([1.0, 1.0, 0.3, 3.0])
            ps = [plane(rng) for _ in range(rng.choice([0, 1, 2, 3, rng.randint(0, 12)]))]
            for q in ps:
                q["eta"] *= spread / 4
                q["phi"] *= rng.choice([1.0, spread / 3])
                q["phi"] = math.remainder(q["phi"], 2 * math.pi)
                if rng.random() < 0.4:
                    q["m"] = rng.uniform(0.5, 4.0)
                    q["eta"] *= rng.choice([1, 3])
            if ps and rng.random() < 0.2:
                ps.append(dict(rng.choice(ps)))
            yield {"k": "cluster", "points": ps, "radius": rng.choice([0.4, 1.0, rng.uniform(0.0, 3.5), 20.0]), "pseudo": rng.random() < 0.5,
                   "threads": rng.randint(1, 4), "around": rng.randint(1, 4), "default": rng.random() < 0.3}


def graph(r, s=0):
    if not isinstance(r, np.ndarray) or r.ndim != 2:
        raise BadProjection("not a matrix")
    scale = 2.0 ** (-s)
    return {"m": [[(INF if v > 0 else -INF) if math.isinf(v) else int(v) if r.dtype.kind == "b" else exact(v, scale) for v in row]
                  for row in r.tolist()],
            "type": r.dtype.str[1:]}


def real(m, s, order):
    a = np.array([[math.inf if v == INF else math.ldexp(v, s) for v in row] for row in m], dtype="<f8")
    n = len(m)
    if order == "F":
        a = np.asfortranarray(a)
    elif order == "view":
        b = np.full((2 * n, n + 3), -7.0)
        b[::2, 1:n + 1] = a
        a = b[::2, 1:n + 1]
    elif order == "read":
        a.setflags(write=False)
    return a


NOTHING = {"m": [], "type": ""}


def run(c):
    k = c["k"]
    if k == "full":
        kw = {} if c["dtype"] is None else {"dtype": c["dtype"]}
        r = out(lambda: gcl.matrix.fc_adj(c["n"], c["self"], **kw), graph, NOTHING)
        return {"k": k, "n": c["n"], "self": c["self"], "refuse": False, "type": TYPES[c["dtype"] or "<?"], "r": r}
    if k in ("cluster", "places"):
        rows = particles(c["points"])
        rows = [rows[i] for i in c["order"]] if k == "places" else rows
        pmu = gcl.MomentumArray(np.array(rows, dtype="<f8").reshape(-1, 4))
        was = pmu.data.tobytes()
        nb.set_num_threads(c["around"])

        def coefs(v):
            if not isinstance(v, np.ndarray) or v.ndim != 1 or v.dtype.kind != "f":
                raise BadProjection("not coefficients")
            return [num(x, 10**6) for x in v.tolist()]

        if c.get("default"):
            fn = lambda: gcl.calculate.cluster_coeff_distbn(pmu, c["radius"], c["pseudo"])
        else:
            fn = lambda: gcl.calculate.cluster_coeff_distbn(pmu, c["radius"], pseudo=c["pseudo"], threads=c["threads"])
        r = out(fn, coefs, [])
        after = nb.get_num_threads()
        return {"k": k, "r": r, "radius": fixed(c["radius"], 10**8)["v"], "before": c["around"], "after": after,
                "place": [i + 1 for i in c.get("order", [])],
                "points": [{"rap": fixed(p["eta"] if c["pseudo"] else rapidity(p), 10**8)["v"], "phi": fixed(p["phi"], 10**8)["v"]}
                           for p in c["points"]],
                "same": pmu.data.tobytes() == was}
    m, s = c["m"], c["s"]
    if not c["weighted"]:
        rs = 0
    else:
        rs = s
    a = real(m, s, c["order"])
    was = a.tobytes()
    e = {"k": k, "n": len(m), "m": m, "self": c["self"], "weighted": c["weighted"], "refuse": False}
    if k == "cut":
        cut = math.inf if c["cut"] == INF else math.ldexp(c["cut"], s)
        kw = {} if c["mode"] == "default" else {"mode": c["mode"]}
        weighted = c["weighted"]
        if "bad" in c:
            e["refuse"] = True
            if c["bad"] == "mode":
                kw["mode"] = "both"
            else:
                weighted = "yes"
        r = out(lambda: gcl.matrix.cut_adj(a, cut, self_loop=c["self"], weighted=weighted, **kw), lambda v: cut_graph(v, rs), NOTHING)
        e.update(cut=c["cut"], mode="min" if c["mode"] == "min" else "max", type="f8" if c["weighted"] else "b1", r=r)
    else:
        kw = {} if c["dtype"] is None else {"dtype": c["dtype"]}
        e["refuse"] = c["weighted"] and c["dtype"] in ("<i4", "<?")
        r = out(lambda: gcl.matrix.knn_adj(a, c["knn"], c["self"], c["weighted"], c["row"], **kw), lambda v: graph(v, rs), NOTHING)
        e.update(knn=c["knn"], row=c["row"], r=r, type=TYPES[c["dtype"] or "<f8"] if c["weighted"] else "b1")
    e["same"] = a.tobytes() == was
    return e


def cut_graph(v, s):
    """The diagonal is 0 or 1, whatever the unit of the affinities."""
    if not isinstance(v, np.ndarray) or v.ndim != 2 or s == 0:
        return graph(v, s)
    d = [exact(x) for x in v.diagonal().tolist()]
    v = v.copy()
    np.fill_diagonal(v, 0.0)
    res = graph(v, s)
    for i, x in enumerate(d):
        res["m"][i][i] = x
    return res
