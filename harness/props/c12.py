"""C12: descendant masks of the hard partons."""
import graphicle as gcl

from ..events import event, graph
from ..evproj import abstract, concrete, fingerprint
from ..masks import project
from ..proj import out

EMPTY = {"t": "g", "op": "", "names": [], "kids": []}


def many(rng):
    """Ten to fourteen partons of few codes from one vertex."""
    codes = rng.choice([[21], [5, -5], [1, 21]])
    n = rng.randint(10, 14)
    pdg = [rng.choice(codes) if rng.random() < 0.9 else codes[0] for _ in range(n)]
    E = [[1, 2]] + [[2, 10 + i] for i in range(n)]
    status, final = [-21] + [-23] * n, [False] * (n + 1)
    pdg = [21] + pdg
    for i in range(n):
        if rng.random() < 0.7:
            at = 10 + i if rng.random() < 0.8 else 10 + rng.randrange(n)
            E += [[10 + i, 100 + 2 * i], [at, 101 + 2 * i]]
            pdg += [211, -211]
            status += [83, 84]
            final += [True, True]
    return concrete({"E": E, "pdg": pdg, "status": status, "final": final}, rng)


def cases(rng, tier, generated):
    for i in range(8 if tier == "quick" else 100):
        ev = many(rng)
        yield {"k": "desc", "ev": ev, "targeted": i % 2 > 0, "target": rng.sample([21, 5, -1], rng.randint(1, 2)) if i % 2 else [],
               "signed": rng.random() < 0.5, "strict": rng.random() < 0.5}
    for g in generated:
        ev = concrete(g["ev"], rng)
        yield {"k": "desc", "ev": ev, "targeted": False, "target": [], "signed": False, "strict": True}
        if rng.random() < 0.3:
            yield {"k": "desc", "ev": ev, "targeted": True,
                   "target": rng.sample([5, -5, 1, 2, 6, 24, 23], rng.randint(1, 3)),
                   "signed": rng.random() < 0.5, "strict": rng.random() < 0.5}
    total = 500 if tier == "quick" else 10000
    for i in range(total):
        ev = event(rng, bare=rng.random() < 0.4)
        hard = [p for p, s in zip(ev["pdg"], ev["status"]) if abs(s) in (22, 23, 24)]
        targeted = rng.random() < 0.7
        target = []
        if targeted:
            target = rng.sample(hard, rng.randint(1, min(4, len(hard))))
            if rng.random() < 0.4:
                j = rng.randrange(len(target))
                target[j] = -target[j]
            if rng.random() < 0.3:
                target.append(rng.choice([37, 35, -6, 5, 11, 4]))
            if rng.random() < 0.1:
                target = [rng.choice([37, 35])]
            if rng.random() < 0.2:
                target.append(rng.choice(target))
        yield {"k": "desc", "ev": ev, "targeted": targeted, "target": target,
               "signed": rng.random() < 0.5, "strict": rng.random() < 0.5,
               "cont": rng.choice(["set", "list", "tuple"])}


def run(c):
    g = graph(c["ev"], ("pdg", "status", "final", "edges"))
    before = fingerprint(g)
    kw = {}
    if c["targeted"]:
        cont = {"list": list, "tuple": tuple, "set": set}[c.get("cont", "set")]
        kw = dict(target=cont(c["target"]), sign_sensitive=c["signed"], strict=c["strict"])
    r = out(lambda: gcl.select.hard_descendants(g, **kw), project, EMPTY)
    return {"k": "desc", "ev": abstract(c["ev"]), "targeted": c["targeted"], "target": c["target"],
            "signed": c["signed"], "strict": c["strict"], "r": r, "same": fingerprint(g) == before}
