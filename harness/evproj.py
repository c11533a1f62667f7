"""Projection of event records for the specification."""
import numpy as np


def abstract(ev, *more):
    """The part of an event the specification speaks about."""
    if "E" in ev:
        out = {"E": ev["E"]}
    else:
        out = {"E": [[s, d] for s, d in zip(ev["src"], ev["dst"])]}
    for k in ("pdg", "status", "final") + more:
        out[k] = ev[k]
    return out


def concrete(ev, rng):
    """Fills in the fields a generated (small-scope) event leaves open."""
    if "E" not in ev:
        return ev
    n = len(ev["E"])
    out = dict(ev)
    E = out.pop("E")
    out["src"], out["dst"] = [e[0] for e in E], [e[1] for e in E]
    out.setdefault("lat", [[rng.randint(0, 5), rng.randint(-20, 20), rng.randint(-15, 16), 0]
                           for _ in range(n)])
    for k in ("color", "anticolor", "helicity"):
        out.setdefault(k, [0] * n)
    return out


def fingerprint(g):
    """Contents of every column of a real event."""
    p = g.particles
    parts = [p.pdg, p.pmu, p.color, p.helicity, p.status, p.final]
    out = [np.asarray(x._data if hasattr(x, "_data") else x.data).tobytes() for x in parts]
    return out + [g.adj.edges.tobytes(), np.asarray(g.adj.weights).tobytes()]
