"""C15: vertex searches."""
import numpy as np

import graphicle as gcl

from .. import topo
from ..events import event, graph
from ..proj import ints, out

CODES = [1, -1, 2, -2, 5, -5, 6, -6, 11, 21, 22, 23, 24, -24, 211, -211, 2212]


def edges_pdg(rng):
    x = rng.random()
    if x < 0.35:
        ev = event(rng, rng.randint(1, 2))
        return [[s, d] for s, d in zip(ev["src"], ev["dst"])], ev["pdg"], ev["status"]
    E = topo.dag(rng) if x < 0.8 else topo.multigraph(rng)
    pool = rng.sample(CODES, rng.choice([2, 3, 6, 12]))
    st = [rng.choice([-1, 1]) * rng.choice([21, 23, 51, 71, 79, 80, 81, 84, 89, 90, 91, 1, 2, 62]) for _ in E]
    return E, [rng.choice(pool) for _ in E], st


def star(rng):
    """A vertex with seventeen to forty particles going in, or out."""
    n = rng.randint(17, 40)
    inward = rng.choice([0.0, 0.5, 1.0])
    E = [[i + 2, 1] if rng.random() < inward else [1, i + 2] for i in range(n)]
    E += [[1, 60] if rng.random() < 0.5 else [60, 1], [60, 61]]
    rare = rng.choice([5, 24, -11])
    pdg = [rng.choice([21, 211]) for _ in E]
    pdg[rng.randrange(n - 3, n)] = rare
    late = E[pdg.index(rare)]
    common = rng.choice([21, 211])
    return {"k": "find", "E": E, "pdg": pdg, "hasin": late[1] == 1, "hasout": late[0] == 1,
            "in": [rare] if rng.random() < 0.6 else sorted([rare, common]), "out": [rare] if rng.random() < 0.6 else sorted([rare, common])}


def cases(rng, tier, generated):
    for _ in range(12 if tier == "quick" else 200):
        yield star(rng)
    for g in generated:
        E = g["E"]
        pdg = [rng.choice([1, 2]) for _ in E]
        yield {"k": "find", "E": E, "pdg": pdg, "hasin": rng.random() < 0.7, "hasout": rng.random() < 0.7,
               "in": rng.sample([1, 2], rng.randint(1, 2)), "out": rng.sample([1, 2], rng.randint(1, 2))}
    total = 700 if tier == "quick" else 12000
    for i in range(total):
        E, pdg, st = edges_pdg(rng) if rng.random() > 0.02 else ([], [], [])
        if rng.random() < 0.3:
            yield {"k": "hadron", "E": E, "status": st}
            continue
        v = rng.choice([x for e in E for x in e] or [0])
        cin = [p for p, e in zip(pdg, E) if e[1] == v]
        cout = [p for p, e in zip(pdg, E) if e[0] == v]

        def pick(codes):
            s = set(rng.sample(codes, rng.randint(1, min(3, len(codes))))) if codes else set()
            if rng.random() < 0.2 or not s:
                s.add(rng.choice(pdg if pdg and rng.random() < 0.7 else CODES))
            return sorted(s)

        hasin, hasout = rng.choice([(True, True), (True, True), (True, False), (False, True), (True, True), (False, False)]) \
            if rng.random() < 0.5 else rng.choice([(True, True), (True, False), (False, True)])
        yield {"k": "find", "E": E, "pdg": pdg, "hasin": hasin, "hasout": hasout,
               "in": pick(cin), "out": pick(cout)}


def listing(v):
    if isinstance(v, np.ndarray) and v.ndim != 1:
        raise ValueError("not flat")
    return [int(x) for x in v]


def run(c):
    E = c["E"]
    if c["k"] == "hadron":
        adj = gcl.AdjacencyList(topo.array(E))
        st = gcl.StatusArray(c["status"])
        return {**c, "r": out(lambda: gcl.select.hadron_vertices(adj, st), listing, [])}
    g = gcl.Graphicle.from_numpy(pdg=np.array(c["pdg"], dtype="<i4"), edges=topo.array(E))
    kw = {}
    if c["hasin"]:
        kw["pdgs_in"] = set(c["in"])
    if c["hasout"]:
        kw["pdgs_out"] = set(c["out"])
    c = {**c, "in": c["in"] if c["hasin"] else [], "out": c["out"] if c["hasout"] else []}
    return {**c, "r": out(lambda: gcl.select.find_vertex(g, **kw), listing, [])}
