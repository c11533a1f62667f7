"""C18: assigning candidates to foci, and tagging clusters."""
import math

import numba as nb
import numpy as np

import graphicle as gcl

from ..big import ZERO, big, fixed, nearest
from ..events import event, graph, lattice, momenta
from ..evproj import concrete, fingerprint
from ..masks import project
from ..proj import BadProjection, integer, out
from .c22 import particles, plane, rapidity

TURN, HALF = 628318531, 314159265
EXACT = [(3, 4), (4, 3), (5, 0), (0, 5), (-3, 4), (-4, 3), (-5, 0), (0, -5), (3, -4)]
EMPTY = {"t": "g", "op": "", "names": [], "kids": []}


def near(rng, p):
    q = dict(p)
    q["eta"] += rng.uniform(-0.6, 0.6)
    q["phi"] = math.remainder(q["phi"] + rng.uniform(-0.6, 0.6), 2 * math.pi)
    q["pt"] = max(1, int(q["pt"] * rng.uniform(0.5, 1.5)))
    return q


def close_case(rng, big_sizes):
    n = rng.choice([1, 2, 2, 3, 3, 4, rng.randint(1, 6 if big_sizes else 5)])
    m = n + rng.choice([0, 0, 1, 1, 2, rng.randint(0, 4)])
    how = rng.choice(["free", "near", "near", "crowd", "onept", "oneway", "exact"])
    ptmax = rng.choice([30, 1000, 10**5])
    f = [plane(rng) for _ in range(n)]
    if how == "near":
        c = [near(rng, p) for p in f] + [plane(rng) for _ in range(m - n)]
    elif how == "crowd":      # everything round one place: conflicts
        at = plane(rng)
        f = [near(rng, at) for _ in range(n)]
        c = [near(rng, at) for _ in range(m)]
    else:
        c = [plane(rng) for _ in range(m)]
    if how in ("free", "oneway"):
        for p in f + c:
            p["pt"] = rng.randint(1, ptmax)
    if how == "oneway":       # candidates in one direction
        for p in c[1:]:
            p.update(eta=c[0]["eta"], phi=c[0]["phi"], m=0.0)
        c[0]["m"] = 0.0
    if how == "onept":
        for p in c:
            p["pt"] = c[0]["pt"]
    if rng.random() < 0.1 and m > 1:
        c[rng.randrange(m)] = dict(rng.choice(c))
    rng.shuffle(c)
    case = {"k": "close", "f": f, "c": c, "exact": False, "warm": rng.random() < 0.5,
            "threads": rng.sample([1, 2, 3, 4], rng.choice([1, 2])), "around": rng.randint(1, 4)}
    if how == "exact":        # equal transverse momenta without rounding
        case["exact"] = True
        case["f"] = [[*rng.choice(EXACT), rng.randint(-9, 9)] for _ in range(n)]
        case["c"] = [[*rng.choice(EXACT), rng.randint(-9, 9)] for _ in range(m)]
    return case


def many(rng):
    """Ten or eleven partons of the hard process."""
    n, h = rng.randint(10, 11), rng.randint(22, 40)
    E = [[1, 3], [2, 3]] + [[3, 10]] * n + [[10, 100 + i] for i in range(h)]
    return concrete({"E": E, "pdg": [21, 21] + [rng.choice([1, 5, -5, 21]) for _ in range(n)] + [211] * h,
                     "status": [-21, -21] + [-23] * n + [83] * h, "final": [False] * (n + 2) + [True] * h}, rng)


def tag_case(rng, crowded=False):
    ev = many(rng) if crowded else event(rng, bare=rng.random() < 0.2)
    while not crowded and sum(abs(s) in (22, 23) for s in ev["status"]) > 8:
        ev = event(rng)
    hard = [(p, abs(s)) for p, s in zip(ev["pdg"], ev["status"]) if abs(s) in (22, 23)]
    outgoing = crowded or rng.random() < 0.85
    inter = rng.random() < 0.4 if outgoing else rng.random() < 0.9
    c = {"k": "tag", "ev": ev, "outgoing": outgoing, "intermediate": inter, "signed": rng.random() < 0.4,
         "black": [], "white": [], "none": rng.random() < 0.5, "form": rng.choice(["list", "tuple"])}
    codes = [p for p, _ in hard]

    def some():
        ls = rng.sample(codes, rng.randint(1, min(3, len(codes)))) if codes else [1]
        return [rng.choice([1, 1, 1, -1]) * x for x in ls] + ([rng.choice([37, -4, 11])] if rng.random() < 0.3 else [])

    p = rng.random()
    if crowded:
        pass
    elif p < 0.35:
        c["black"] = some()
    elif p < 0.7:
        c["white"] = some()
    elif p < 0.75:
        c["black"], c["white"] = some(), some()
    size = sum(ev["final"])
    if rng.random() < 0.3:
        size = rng.randint(22 if crowded else 3, 30 if crowded else 20)
        c["clustered"] = [lattice(rng) for _ in range(size)]
    want = sum((s == 23 and outgoing) or (s == 22 and inter) for _, s in hard)
    m = max(1, want + rng.choice([0, 0, 1, 2, 3, 0, -1]))
    m = min(m, 12 if crowded else 10)
    masks = []
    owner = [rng.randrange(m) for _ in range(size)]
    masks = [[o == j for o in owner] for j in range(m)]
    for j in range(m):
        while not any(masks[j]) or masks[j] in masks[:j]:
            masks[j] = [rng.random() < 0.4 for _ in range(size)]
            if size < 6 and rng.random() < 0.05:
                break
    masks = [b for j, b in enumerate(masks) if any(b) and b not in masks[:j]]
    p = rng.random()
    if p < 0.04:
        masks = []
    elif p < 0.12 and masks:
        extra = rng.choice([True, False])
        for b in masks if rng.random() < 0.6 else [rng.choice(masks)]:
            b.append(extra) if rng.random() < 0.9 or len(b) < 2 else b.pop()
    c["masks"] = masks
    c["size"] = size
    return c


def cases(rng, tier, generated):
    quick = tier == "quick"
    for g in rng.sample(generated, min(len(generated), 300 if quick else 3000)):
        f, c = ([{"eta": a * 0.5, "phi": b * math.pi / 4 - 3, "pt": 64 * t, "m": 0.0} for a, b, t in g[x]] for x in "fc")
        yield {"k": "close", "f": f, "c": c, "exact": False, "warm": rng.random() < 0.5, "threads": [rng.randint(1, 4)], "around": 2}
    for _ in range(3 if quick else 20):
        yield tag_case(rng, True)
    for _ in range(450 if quick else 8000):
        yield close_case(rng, not quick) if rng.random() < 0.5 else tag_case(rng)


def point(x, y, z, e):
    """Rapidity, azimuth and transverse momentum of four components."""
    mt = math.sqrt(max(e * e - z * z, 0.0)) if e - abs(z) > 1e-6 * e else None
    pt = math.hypot(x, y)
    if mt is None or pt < 1e-6:
        return None
    return {"rap": fixed(math.asinh(z / mt), 10**8)["v"], "phi": fixed(math.atan2(y, x), 10**8)["v"],
            "pt": fixed(pt, 10**8)["v"]}


def value(b):
    n = 0
    for d in reversed(b[1]):
        n = n * 10000 + d
    return b[0] * n


def wrapped(d):
    while d > HALF:
        d = abs(TURN - d)
    return d


def witness(p, cs):
    """Distances and quotients which the specification checks."""
    ds = [math.isqrt((value(p["rap"]) - value(q["rap"])) ** 2 + wrapped(abs(value(p["phi"]) - value(q["phi"]))) ** 2) for q in cs]
    pts = [value(q["pt"]) for q in cs]
    gaps = [abs(value(p["pt"]) - t) for t in pts]
    n = len(cs)

    def quotients(xs, spread):
        v = n * sum(x * x for x in spread) - sum(spread) ** 2
        return [big(x * x * n * n * 10**9 // (2 * v)) if v else ZERO for x in xs]

    return {"d": [big(d) for d in ds], "qd": quotients(ds, ds), "qp": quotients(gaps, pts)}


def indices(v):
    if not isinstance(v, list):
        raise BadProjection("not a list")
    return [integer(i) for i in v]


def run(c):
    return close(c) if c["k"] == "close" else tag(c)


def close(c):
    if c["exact"]:
        data = [[[x, y, z, math.sqrt(x * x + y * y + z * z + 1)] for x, y, z in c[k]] for k in "fc"]
        pts = [[point(*r) for r in d] for d in data]
    else:
        data = [particles(c["f"]), particles(c["c"])]
        pts = [[{"rap": fixed(rapidity(p), 10**8)["v"], "phi": fixed(p["phi"], 10**8)["v"], "pt": big(p["pt"] * 1562500)}
                for p in c[k]] for k in "fc"]
    pmus = [gcl.MomentumArray(np.array(d, dtype="<f8")) for d in data]
    if c["warm"]:
        for p in pmus:
            p.rapidity, p.eta, p.phi, p.pt
    was = [p.data.tobytes() for p in pmus]
    calls = []
    for t in c["threads"]:
        nb.set_num_threads(c["around"])
        r = out(lambda: gcl.select.arg_closest(*pmus, num_threads=t) if t > 1 else gcl.select.arg_closest(*pmus), indices, [])
        calls.append({"r": r, "before": c["around"], "after": nb.get_num_threads()})
    fresh = [gcl.MomentumArray(np.array(d, dtype="<f8")) for d in data]
    cached = all(np.array_equal(getattr(a, q), getattr(b, q)) for a, b in zip(pmus, fresh) for q in ("rapidity", "eta", "phi", "pt"))
    return {"k": "close", "f": pts[0], "c": pts[1], "w": [witness(p, pts[1]) for p in pts[0]], "exact": c["exact"], "calls": calls,
            "same": [p.data.tobytes() for p in pmus] == was, "cached": cached}


def tag(c):
    ev = c["ev"]
    g = graph(ev, ("pdg", "pmu", "status", "final", "edges"))
    masks = [gcl.MaskArray(np.array(b, dtype=bool)) for b in c["masks"]]
    arg = tuple(masks) if c["form"] == "tuple" else masks
    kw = {}
    data = momenta(ev["lat"])[np.array(ev["final"], dtype=bool)]
    if "clustered" in c:
        data = momenta(c["clustered"])
        kw["clustered_pmu"] = gcl.MomentumArray(data)
    for key, name in (("black", "blacklist"), ("white", "whitelist")):
        if c[key]:
            kw[name] = c[key]
        elif c["none"]:
            kw[name] = None
    before = fingerprint(g)
    r = out(lambda: gcl.select.monte_carlo_tag(g.particles, arg, intermediate=c["intermediate"], outgoing=c["outgoing"],
                                               sign_sensitive=c["signed"], **kw), project, EMPTY)
    same = fingerprint(g) == before and all(m.data.tolist() == b for m, b in zip(masks, c["masks"]))
    jets = []
    for b in c["masks"]:
        rows = [row for row, x in zip(data.tolist(), b) if x]
        jets.append(point(*[math.fsum(v) for v in zip(*rows)]) if rows else None)
    hard, at = [], []
    for i, s in enumerate(ev["status"]):
        if abs(s) in (22, 23):
            hard.append(point(*momenta([ev["lat"][i]])[0].tolist()))
            at.append(len(hard))
        else:
            at.append(0)
    e = {"k": "tag", "pdg": ev["pdg"], "status": ev["status"], "masks": c["masks"], "size": len(data), "same": same, "r": r,
         "outgoing": c["outgoing"], "intermediate": c["intermediate"], "signed": c["signed"], "black": c["black"], "white": c["white"],
         "f": hard, "at": at, "exact": False}
    if any(j is None for j in jets):     # refused, or without a direction
        jets = [{"rap": ZERO, "phi": ZERO, "pt": ZERO} for _ in jets]
    e["c"] = jets
    e["w"] = [witness(p, jets) for p in hard]
    return e
