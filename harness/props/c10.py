"""C10: adjacency views all describe the same graph."""
import numpy as np
import scipy.sparse as sps

import graphicle as gcl

from .. import topo
from ..keys import key_value, meaning, random_key
from ..proj import BadProjection, bools, exact, integer, ints, out, raw

VIEWS = ["nodes", "roots", "leaves", "matrix", "edges", "weights", "serialize",
         "length", "sparse", "sparse-data"]


def weights(rng, n):
    style = rng.choice(["none", "none", "pos", "any", "zero"])
    if style == "none":
        return []
    lo = 1 if style == "pos" else -9
    w = [rng.randint(lo, 9) for _ in range(n)]
    if style == "zero" and w:
        w[rng.randrange(n)] = 0
    return w


def cases(rng, tier, generated):
    for g in generated:
        E = g["E"]
        w = rng.choice([[], [], [rng.randint(-3, 5) for _ in E]])
        yield {"k": "view", "E": E, "w": w, "views": rng.sample(VIEWS, 5)}
    for n in [130, 200, 270] if tier == "quick" else [130, 200, 257, 270, 300, 520, 700]:
        for E, views in ((topo.crowd(rng, n), VIEWS),
                         (topo.deep(rng, n), [v for v in VIEWS if v != "matrix"])):
            for w in ([], [rng.randint(-9, 9) for _ in E]):
                yield {"k": "view", "E": E, "w": w, "views": views,
                       "data": [rng.randint(-5, 9) for _ in E]}
    total = 900 if tier == "quick" else 20000
    for i in range(total):
        kind = rng.choice(["view", "view", "from", "from", "select", "copy"])
        if kind == "from":
            n = rng.choice([1, 2, 3, 5, 9, 16])
            p = rng.choice([0.0, 0.2, 0.5, 1.0])
            sym = rng.random() < 0.5
            M = [[0] * n for _ in range(n)]
            for a in range(n):
                for b in range(n):
                    if rng.random() < p and (a != b or rng.random() < 0.4):
                        M[a][b] = rng.choice([1, 1, 2, 5, -3, 7])
                        if sym:
                            M[b][a] = M[a][b]
            dt = rng.choice(["float", "int", "bool"])
            if dt == "bool":
                M = [[int(x != 0) for x in r] for r in M]
            yield {"k": kind, "M": M, "dtype": dt, "weighted": rng.random() < 0.5,
                   "loop": rng.random() < 0.5}
            continue
        E = topo.dag(rng) if rng.random() < 0.5 else topo.multigraph(rng)
        if rng.random() < 0.04:
            E = []
        w = weights(rng, len(E))
        c = {"k": kind, "E": E, "w": w}
        if kind == "view":
            c["views"] = [rng.choice(VIEWS) for _ in range(rng.randint(3, 9))]
            c["data"] = [rng.randint(-5, 9) for _ in E]
        elif kind == "select":
            c["key"] = random_key(rng, len(E))
            c["warm"] = rng.choice(VIEWS[:4] + ["length"])
        yield c


def make(c):
    kw = {"weights": np.array(c["w"], dtype=float)} if c["w"] else {}
    return gcl.AdjacencyList(topo.array(c["E"]), **kw)


def mat(x):
    a = np.asarray(x)
    if a.ndim != 2:
        raise BadProjection("not a matrix")
    return [[exact(v) for v in row] for row in a.tolist()]


def sparse(s):
    if not sps.issparse(s):
        raise BadProjection("not sparse")
    s = s.tocoo()
    return {"shape": [int(x) for x in s.shape],
            "items": [[int(r), int(c), exact(v)] for r, c, v in zip(s.row, s.col, s.data)]}


NONE = {"shape": [], "items": []}


def view(adj, name, data):
    if name == "nodes":
        return out(lambda: adj.nodes, ints, [])
    if name in ("roots", "leaves"):
        return out(lambda: getattr(adj, name), bools, [])
    if name == "matrix":
        return out(lambda: adj.matrix, mat, [])
    if name == "edges":
        return out(lambda: adj, topo.edges_of, [])
    if name == "weights":
        return out(lambda: adj.weights, lambda w: [exact(x) for x in w], [])
    if name == "serialize":
        return out(adj.serialize, lambda s: [[integer(a), integer(b)] for a, b in s], [])
    if name == "length":
        return out(lambda: len(adj), integer, 0)
    if name == "sparse":
        return out(adj.to_sparse, sparse, NONE)
    return out(lambda: adj.to_sparse(np.array(data, dtype=float)), sparse, NONE)


def run(c):
    k = c["k"]
    if k == "from":
        dt = {"float": float, "int": "<i4", "bool": bool}[c["dtype"]]
        m = np.array(c["M"], dtype=dt)
        before = m.copy()

        def build():
            return gcl.AdjacencyList.from_matrix(m, weighted=c["weighted"], self_loop=c["loop"])

        def proj(a):
            return {"E": topo.edges_of(a), "w": [exact(x) for x in a.weights]}

        r = out(build, proj, {"E": [], "w": []})
        back = out(lambda: build().matrix, mat, [])
        return {"k": k, "M": c["M"], "weighted": c["weighted"], "loop": c["loop"], "r": r,
                "back": back, "same": bool(np.array_equal(m, before))}
    adj = make(c)
    E, w = c["E"], c["w"]
    if k == "view":
        data = c.get("data", [2 * i + 1 for i in range(len(E))])
        return [{"k": k, "view": v, "E": E, "w": w, "data": data, "r": view(adj, v, data)}
                for v in c["views"]]
    if k == "copy":
        b = adj.copy()
        adj.weights[...] = 77
        adj.edges["src"][...] = 77
        return {"k": k, "E": E, "w": w, "edges": view(b, "edges", None),
                "weights": view(b, "weights", None)}
    view(adj, c["warm"], None)
    key, idx = key_value(c["key"], len(E))
    sel = out(lambda: adj[key], lambda a: True, False)
    if not sel["ok"]:
        none = {"ok": False, "exc": sel["exc"], "v": []}
        res = dict(edges=none, weights=none, matrix=none)
    else:
        b = adj[key]
        res = dict(edges=view(b, "edges", None), weights=view(b, "weights", None),
                   matrix=view(b, "matrix", None))
    return {"k": k, "E": E, "w": w, "key": meaning(c["key"]), **res}
