"""C13: the hierarchy of the hard process."""
import random

import graphicle as gcl

from ..events import event, graph
from ..evproj import abstract, concrete, fingerprint
from ..masks import project
from ..proj import out
from .c12 import many

EMPTY = {"t": "g", "op": "", "names": [], "kids": []}


def cases(rng, tier, generated):
    for g in generated:
        yield {"k": "hier", "ev": concrete(g["ev"], rng)}
    total = 600 if tier == "quick" else 10000
    for i in range(total):
        yield {"k": "hier", "ev": event(rng, bare=rng.random() < 0.4)}
    for _ in range(4 if tier == "quick" else 40):
        yield {"k": "hier", "ev": many(rng)}


def hard_rows(g):
    st = abs(g.status.data.astype(int))
    return [i for i, x in enumerate(st.tolist()) if x in (22, 23, 24)]


def run(c):
    g = graph(c["ev"], ("pdg", "pmu", "status", "final", "edges"))
    before = fingerprint(g)
    r = out(lambda: gcl.select.hierarchy(g), project, EMPTY)
    desc = gcl.select.hard_descendants(g)
    was = project(desc)
    given = out(lambda: gcl.select.hierarchy(g, desc=desc), project, EMPTY)
    names = list(desc)
    random.Random(len(names) + len(g)).shuffle(names)
    other = desc[names]
    mixed = out(lambda: gcl.select.hierarchy(g, desc=other), project, EMPTY)
    # descendants without the partons themselves
    bare = gcl.select.hard_descendants(g)
    for name, idx in zip(bare, hard_rows(g)):
        bare[name].data[idx] = False
    bare = out(lambda: gcl.select.hierarchy(g, desc=bare), project, EMPTY)
    return {"k": "hier", "bare": bare["v"], "mixed": mixed["v"], "ev": abstract(c["ev"]), "r": r, "given": given["v"],
            "descsame": project(desc) == was, "same": fingerprint(g) == before}
