"""C17: jet clustering."""
import math

import numpy as np

import graphicle as gcl

from ..big import ZERO, big, fixed, nearest
from ..proj import BadProjection, bools, out
from .c22 import particles, plane

UNIT = 10**6
# 2p = num / den
POWERS = [(-2, 1), (0, 1), (2, 1)] * 3 + [(1, 1), (-1, 1), (4, 1), (-4, 1), (3, 1), (1, 2), (-1, 2), (-3, 4), (1, 4), (-6, 1), (6, 1)]


def jet_case(rng, n):
    spread = rng.choice([4.0, 2.0, 1.0, 0.4])
    top = rng.choice([20, 10**3, 10**4])
    ps = [plane(rng) for _ in range(n)]
    cores = [plane(rng) for _ in range(rng.randint(1, 3))]
    for p in ps:
        p["pt"] = int(math.exp(rng.uniform(math.log(64), math.log(top + 64))))
        if rng.random() < 0.6:
            at = rng.choice(cores)
            p["eta"] = at["eta"] / 2 + rng.uniform(-0.4, 0.4) * spread
            p["phi"] = math.remainder(at["phi"] + rng.uniform(-0.4, 0.4) * spread, 2 * math.pi)
        p["m"] = rng.choice([0.0, 0.0, rng.uniform(0, 1.5)])
    r = rng.choice([0.4, 0.8, 1.0, rng.uniform(0.01, 0.3), rng.uniform(0.05, 3.0), rng.uniform(0.3, 1.5), 15.0])
    if 3 <= n and r < 1.6 and rng.random() < 0.7:     # crowded, on the scale of the radius
        wide = rng.choice([0.8, 1.2, 1.6]) * r
        eta, phi = rng.uniform(-2, 2), rng.choice([0.0, 3.1, -2.0])
        for p in ps:
            p["eta"] = eta + rng.uniform(-wide, wide)
            p["phi"] = math.remainder(phi + rng.uniform(-wide, wide), 2 * math.pi)
            p["m"] = 0.0 if rng.random() < 0.7 else p["m"]
    beams = [b for b in (5.0, -7.0) if rng.random() < 0.08]
    num, den = rng.choice(POWERS)
    c = {"k": "jets", "points": ps, "beams": beams, "num": num, "den": den, "radius": r, "order": rng.random() < 0.5,
         "whole": rng.choice(["int", "float", "plain"]), "layout": rng.choice(["plain", "plain", "slice", "struct"]), "seed": rng.randrange(1 << 30)}
    calls = [{}]
    for _ in range(rng.randint(2, 6)):
        cut = {}
        if rng.random() < 0.5:
            cut["pt"] = rng.choice([0.0, rng.uniform(0, top / 40), rng.choice(ps)["pt"] / 64 if ps else 1.0, 1e7])
        if rng.random() < 0.5:
            cut["eta"] = rng.choice([rng.uniform(0, 3), rng.uniform(0.3, 2), 0.0,
                                     abs(rng.choice(ps)["eta"]) / 2 + 0.01 if ps else 1.0])
        if rng.random() < 0.5:
            cut["k"] = rng.choice([1, 1, 2, 2, 3, rng.randint(1, n + 2)])
        if rng.random() < 0.08:
            cut[rng.choice(["pt", "eta"])] = -rng.choice([1e-3, 1.0, 50.0])
        if rng.random() < 0.08:
            cut["k"] = rng.choice([0, -1, -3, 2.0, 1.5, "x", 0.0])
        if rng.random() < 0.1:
            cut = {}
        calls.append(cut)
    c["calls"] = calls
    if rng.random() < 0.03:
        c["radius"] = -rng.choice([1e-6, 0.5, 3.0])
    return c


def cases(rng, tier, generated):
    quick = tier == "quick"
    for g in rng.sample(generated, min(len(generated), 100 if quick else 700)):
        c = jet_case(rng, 0)
        c["points"] = [{"eta": 0.5 * a, "phi": 0.5 * b, "pt": 64 * t, "m": 0.0} for a, b, t in g["points"]]
        c["radius"] = rng.choice([0.6, 1.2, 15.0])
        yield c
    for i in range(420 if quick else 6000):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, rng.randint(4, 12), rng.randint(4, 10)])
        if i % 40 == 0:
            n = rng.randint(15, 30 if quick else 60)
        yield telling(rng, n)
    for _ in range(3 if quick else 30):     # well over a hundred jets
        c = jet_case(rng, rng.randint(110, 150))
        c["radius"], c["run"] = rng.choice([0.01, 0.03]), False
        yield c
    for _ in range(16 if quick else 120):
        c = almost(rng)
        if c:
            yield c


def outcome(rows, radius, power):
    return final(history(rows, list(range(len(rows))), radius, power))


def final(table):
    """The jets: pseudojets which no other contains."""
    sets = [set(s) for s in table]
    return {s for s in table if not any(set(s) < t for t in sets)}


def telling(rng, n):
    """A case whose jets depend on the power, if one is found quickly."""
    for attempt in range(1 if not 4 <= n <= 12 or rng.random() < 0.3 else 8):
        c = jet_case(rng, n)
        if attempt == 0:
            first = c
        if not 4 <= n <= 12 or c["radius"] < 0:
            return c
        rows = particles(c["points"])
        power = c["num"] / c["den"]
        mine = outcome(rows, c["radius"], power)
        others = [q for q in (-2, 0, 2, power / 2, -power, round(power)) if abs(q - power) > 0.2]
        if all(outcome(rows, c["radius"], q) != mine for q in rng.sample(others, 2)):
            return c
    return first


# 2p next to a power which has an algorithm of its own
NEAR = [((1, 16), 0), ((-1, 16), 0), ((33, 16), 2), ((31, 16), 2), ((-33, 16), -2), ((-31, 16), -2),
        ((1, 8), 0), ((17, 8), 2), ((-17, 8), -2), ((-15, 8), -2)]


def almost(rng):
    """A case whose jets are not those of the power next to its own."""
    (num, den), other = rng.choice(NEAR)
    for _ in range(150):
        c = jet_case(rng, rng.randint(5, 9))
        if c["radius"] < 0:
            continue
        c.update(num=num, den=den)
        rows = particles(c["points"])
        if outcome(rows, c["radius"], num / den) != outcome(rows, c["radius"], other):
            return c
    return None


def coords(rows, members):
    x, y, z, e = (math.fsum(rows[i][a] for i in members) for a in range(4))
    pt = math.hypot(x, y)
    m2 = max((e - abs(z)) * (e + abs(z)), 1e-300)
    return pt, math.asinh(z / math.sqrt(m2)), math.atan2(y, x), math.asinh(z / pt)


def gap(a, b):
    d = abs(a[2] - b[2])
    if d > math.pi:
        d = 2 * math.pi - d
    return (a[1] - b[1]) ** 2 + d * d


def history(rows, ids, radius, power):
    """Pseudojets of the algorithm, with coordinates."""
    table = {(i,): coords(rows, (i,)) for i in ids}
    active = list(table)
    w = {s: table[s][0] ** power for s in active}
    near = {}
    while active:
        best, pick = math.inf, None
        for i, s in enumerate(active):
            d = w[s] * radius * radius
            if d < best:
                best, pick = d, (s,)
            for t in active[i + 1:]:
                key = (s, t)
                if key not in near:
                    near[key] = gap(table[s], table[t])
                d = min(w[s], w[t]) * near[key]
                if d < best:
                    best, pick = d, key
        for s in pick:
            active.remove(s)
        if len(pick) == 2:
            u = tuple(sorted(pick[0] + pick[1]))
            table[u] = coords(rows, u)
            w[u] = table[u][0] ** power
            active.append(u)
    return table


def jets(v):
    if not isinstance(v, list) or not all(isinstance(m, gcl.MaskArray) for m in v):
        raise BadProjection("not a list of masks")
    return [bools(m) for m in v]


def run(c):
    rows = particles(c["points"])
    for b in c["beams"]:
        rows.append([0.0, 0.0, b, abs(b)])
    n = len(rows)
    data = np.array(rows, dtype="<f8").reshape(-1, 4)
    if c["layout"] == "slice":
        wide = np.full((2 * n, 4), -3.0)
        wide[::2] = data
        pmu = gcl.MomentumArray(wide)[::2]
    elif c["layout"] == "struct":
        pmu = gcl.MomentumArray(data.copy().view([(a, "<f8") for a in "xyze"]).reshape(-1))
    else:
        pmu = gcl.MomentumArray(data)
    was = pmu.data.tobytes()
    power = c["num"] / c["den"]
    p = power / 2
    if c["whole"] != "plain" and p == int(p):
        p = int(p) if c["whole"] == "int" else float(p)
    elif c["whole"] == "int":
        p = np.float64(p)
    masks = []
    calls = []
    for cut in c["calls"]:
        kw = {}
        for a, b in (("pt", "pt_cut"), ("eta", "eta_cut"), ("k", "top_k")):
            if a in cut:
                kw[b] = cut[a]
        r = out(lambda: gcl.select.fastjet_clusters(pmu, c["radius"], p, **kw), jets, [])
        if not masks and r["ok"] and not cut:
            masks = r["v"]
        k = cut.get("k")
        whole = isinstance(k, int)
        calls.append({"r": r, "pt": {"on": "pt" in cut, "v": fixed(cut.get("pt", 0.0), UNIT)["v"]},
                      "eta": {"on": "eta" in cut, "v": fixed(cut.get("eta", 0.0), UNIT)["v"]},
                      "limit": {"on": k is not None, "whole": whole, "n": k if whole else 0}})
    same = pmu.data.tobytes() == was
    free = range(len(c["points"]))
    e = {"k": "jets", "n": n, "calls": calls, "same": same, "radius": fixed(c["radius"], UNIT)["v"], "num": c["num"], "den": c["den"]}
    table = history(rows, list(free), c["radius"], power) if c["radius"] > 0 else {}
    for b in masks:
        s = tuple(i for i, x in enumerate(b) if x)
        if s and s not in table and max(s) < len(free):
            table[s] = coords(rows, s)
    least = min((t[0] ** power for t in table.values()), default=1.0)
    unit = 0
    while least * 10.0 ** unit < 1e8:
        unit += 4
    pj = [{"s": [i + 1 for i in s], "rap": nearest_int(t[1]), "phi": nearest_int(t[2]), "pt": fixed(t[0], UNIT)["v"],
           "w": fixed(t[0] ** power, 10**unit)["v"], "beam": False, "eta": fixed(t[3], UNIT)} for s, t in table.items()]
    for j in range(len(c["beams"])):
        pj.append({"s": [len(free) + j + 1], "rap": 0, "phi": 0, "pt": ZERO, "w": ZERO, "beam": True, "eta": {"c": "+inf", "v": ZERO}})
    for b in masks:        # a jet of particles along the beam and others
        s = [i + 1 for i, x in enumerate(b) if x]
        if s and s not in [q["s"] for q in pj]:
            pj.append({"s": s, "rap": 0, "phi": 0, "pt": ZERO, "w": ZERO, "beam": True, "eta": {"c": "+inf", "v": ZERO}})
    e.update(pj=pj, unit=big(10**unit), run=c.get("run", True))
    return e


def nearest_int(x):
    return int(round(x * UNIT))
