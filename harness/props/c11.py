"""C11: descendants are reachability."""
import graphicle as gcl

from .. import topo
from ..proj import bools, out


def cases(rng, tier, generated):
    for g in generated:
        E = g["E"]
        vs = sorted({x for e in E for x in e})
        rng.shuffle(vs)
        yield {"k": "desc", "E": E, "q": vs + [[x, y] for x, y in E], "warm": rng.random() < 0.5}
    for n in [110, 140, 270] if tier == "quick" else [110, 129, 140, 200, 257, 300, 400, 520]:
        E = topo.deep(rng, n)
        first = E[0] if rng.random() < 0.3 else rng.choice(E)
        roots = [e for e in E if e[0] not in {x[1] for x in E}]
        yield {"k": "desc", "E": E, "q": [roots[0][0], list(roots[0]), list(first), roots[0][0]],
               "warm": rng.random() < 0.5}
    for n in [140, 300] if tier == "quick" else [140, 270, 300, 600]:
        E = topo.crowd(rng, n)
        E = [e for e in E if e[0] != e[1]]
        yield {"k": "desc", "E": E, "q": [E[0][0], list(E[0]), list(E[-1])], "warm": True}
    yield {"k": "desc", "E": [], "q": [1, -1, [1, 2], 0], "warm": True}
    total = 700 if tier == "quick" else 20000
    for i in range(total):
        E = topo.dag(rng)
        vs = sorted({x for e in E for x in e})
        q = []
        for _ in range(rng.randint(1, 6)):
            x = rng.random()
            if x < 0.55:
                q.append(rng.choice(vs))
            elif x < 0.62:
                q.append(rng.choice([max(vs) + 1, min(vs) - 1, 0]))
            elif x < 0.97:
                q.append(list(rng.choice(E)))
            elif q:
                q.append(q[0])
        yield {"k": "desc", "E": E, "q": q or [vs[0]], "warm": rng.random() < 0.5,
               "w": rng.random() < 0.2}


def run(c):
    E = c["E"]
    kw = {"weights": [0.0, 1.5, -2.0] * len(E)} if c.get("w") else {}
    if kw:
        kw["weights"] = kw["weights"][: len(E)]
    adj = gcl.AdjacencyList(topo.array(E), **kw)
    if c["warm"]:
        adj.matrix, adj.roots, adj.leaves
    events = []
    for q in c["q"]:
        if isinstance(q, list):
            edge = gcl.VertexPair(*q) if len(events) % 2 else tuple(q)
            e = {"k": "edge", "edge": q, "r": out(lambda: gcl.select.edge_descendants(adj, edge), bools, [])}
        else:
            e = {"k": "vertex", "v": q, "r": out(lambda: gcl.select.vertex_descendants(adj, q), bools, [])}
        e["E"] = E
        e["same"] = topo.edges_of(adj) == E
        events.append(e)
    return events
