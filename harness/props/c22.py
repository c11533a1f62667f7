"""C22: aggregates over groups of particles."""
import math
import random
import warnings

import numpy as np

import graphicle as gcl

from ..big import ZERO, angle, big, classed, expo, fixed, hyper, scalar, whole
from ..proj import BadProjection, bools, out


def physical(rng, size):
    x, y, z = (rng.randint(-size, size) for _ in range(3))
    if rng.random() < 0.1:
        x = y = 0
    p = math.isqrt(x * x + y * y + z * z)
    return [x, y, z, p + 1 + rng.choice([0, 0, rng.randint(0, size)])]


def anything(rng, size):
    m = physical(rng, size)
    if rng.random() < 0.3:
        m[3] = rng.randint(0, size)
    if rng.random() < 0.05:
        m = [0, 0, 0, 0]
    return m


def plane(rng):
    phi = rng.choice([rng.uniform(-math.pi, math.pi), rng.choice([-1, 1]) * (math.pi - rng.uniform(0.001, 0.3))])
    return {"eta": rng.uniform(-4, 4), "phi": phi, "pt": rng.randint(1, 10**5), "m": rng.choice([0.0, 0.0, rng.uniform(0, 2)])}


def mask(rng, n):
    p = rng.random()
    return [rng.random() < p for _ in range(n)]


def total(ms):
    return [sum(m[i] for m in ms) for i in range(4)]


def transverse(ms):
    t = total(ms)
    return t[0] ** 2 + t[1] ** 2 > 0


def cases(rng, tier, generated):
    quick = tier == "quick"
    for i in range(5 if quick else 60):
        n = rng.choice([33, 40, 65, 70])
        yield {"k": "aggregate", "s": 0, "ms": [anything(rng, 1000) for _ in range(n)],
               "masks": [mask(rng, n) for _ in range(rng.choice([3, 33, 47, 66]))], "form": rng.choice(["list", "iter", "group"])}
    for g in generated:
        n = len(g["masks"][0])
        yield {"k": "aggregate", "s": 0, "ms": [anything(rng, 9) for _ in range(n)], "masks": g["masks"], "form": "list"}
    for _ in range(1000 if quick else 18000):
        k = rng.choice(["aggregate", "resultant", "mass", "mass", "centroid", "prune", "prune", "own"])
        size = rng.choice([2, 30, 10**3, 10**5])
        n = rng.choice([1, 1, 2, 3, rng.randint(1, 12)])
        c = {"k": k, "s": rng.choice([0, 0, rng.randint(-12, 12)]), "seed": rng.randrange(1 << 30)}
        if k == "aggregate":
            n = rng.choice([n, n, 0])
            c.update(ms=[anything(rng, size) for _ in range(n)], masks=[mask(rng, n) for _ in range(rng.randint(0, 6))],
                     form=rng.choice(["list", "tuple", "iter", "group", "arrays"]))
        elif k == "resultant":
            ms = [physical(rng, size) for _ in range(n)]
            c.update(ms=ms, pseudo=rng.random() < 0.5)
        elif k == "mass":
            weights = rng.choice(["none", "none", "col", "full", "struct", "bad"])
            c.update(ms=[anything(rng, min(size, 1000)) for _ in range(rng.choice([n, 0]) if weights == "none" else n)], weights=weights,
                     form=rng.choice(["array", "struct"]))
        elif k == "centroid":
            points = [plane(rng) for _ in range(n)]
            if rng.random() < 0.2:  # one azimuth, on the seam or on an axis
                at = rng.choice([math.pi, math.pi, -math.pi, 0.0, math.pi / 2, points[0]["phi"]])
                points = [dict(p, phi=at) for p in points]
            c.update(points=points, pseudo=rng.random() < 0.5)
        elif k == "prune":
            pts = [plane(rng) for _ in range(rng.randint(0, 14))]
            at = rng.choice(pts) if pts and rng.random() < 0.6 else plane(rng)
            c.update(points=pts, centre=[at["eta"] + rng.uniform(-0.5, 0.5), rng.choice([at["phi"], at["phi"] + rng.uniform(-0.5, 0.5),
                     at["phi"] + 2 * math.pi])], radius=rng.choice([0.4, 1.0, 2.0, rng.uniform(0.0, 4.0)]),
                     mask=mask(rng, len(pts)) if rng.random() < 0.6 else None, beam=rng.random() < 0.2)
        else:
            ms = [physical(rng, size) for _ in range(rng.randint(1, 10))]
            msk = mask(rng, len(ms)) if rng.random() < 0.6 else None
            if not transverse([m for m, b in zip(ms, msk or [True] * len(ms)) if b]):
                msk = None
                ms.append([3 * size, 4 * size, 1, 6 * size + 1])
            if not transverse(ms):
                continue
            c.update(ms=ms, mask=msk, radius=rng.choice([0.4, 1.0, 2.0, rng.uniform(0.05, 4.0)]))
        yield c


def array(ms, s):
    return gcl.MomentumArray(np.array([[math.ldexp(v, s) for v in m] for m in ms], dtype="<f8").reshape(-1, 4))


def abstract(ms):
    return [dict(zip("xyze", map(big, m))) for m in ms]


def rows(pmu, s):
    if not isinstance(pmu, gcl.MomentumArray):
        raise BadProjection("not momenta")
    return [{n: whole(r[n], s) for n in "xyze"} for r in pmu.data]


def pair(v):
    if not isinstance(v, tuple) or len(v) != 2:
        raise BadProjection("not a pair")
    return scalar(v[0]), scalar(v[1])


def coords(v, pseudo):
    rap, phi = pair(v)
    return {"rap": hyper(rap) if pseudo else expo(rap), "phi": angle(phi)}


def root(ms):
    x, y = total(ms)[:2]
    return big(math.isqrt((x * x + y * y) * 10**12))


NOTHING = {"rap": {"c": "", "v": ZERO}, "phi": {"c": "", "v": ZERO}}


def particles(points):
    res = []
    for p in points:
        pt, m = p["pt"] / 64, p["m"] * p["pt"] / 64
        res.append([pt * math.cos(p["phi"]), pt * math.sin(p["phi"]), pt * math.sinh(p["eta"]),
                    math.hypot(pt * math.cosh(p["eta"]), m)])
    return res


def rapidity(p):
    return math.asinh(math.sinh(p["eta"]) / math.hypot(1.0, p["m"]))


def run(c):
    warnings.simplefilter("ignore")
    k, s = c["k"], c["s"]
    rng = random.Random(c.get("seed", 0))
    if k == "aggregate":
        pmu = array(c["ms"], s)
        form = c["form"]
        masks = [gcl.MaskArray(m) for m in c["masks"]]
        if form == "tuple":
            arg = tuple(masks)
        elif form == "iter":
            arg = iter(masks)
        elif form == "group":
            arg = gcl.MaskGroup({str(i): m for i, m in enumerate(masks)}).values()
        elif form == "arrays":
            arg = [np.array(m, dtype="<?") for m in c["masks"]]
        else:
            arg = masks
        was = pmu.data.tobytes()
        r = out(lambda: gcl.calculate.aggregate_momenta(pmu, arg), lambda p: rows(p, s), [])
        return {"k": k, "ms": abstract(c["ms"]), "masks": c["masks"], "r": r, "same": pmu.data.tobytes() == was
                and all(m.data.tolist() == w for m, w in zip(masks, c["masks"]))}
    if k == "resultant":
        pmu = array(c["ms"], s)
        r = out(lambda: gcl.calculate.resultant_coords(pmu, c["pseudo"]), lambda v: coords(v, c["pseudo"]), NOTHING)
        return {"k": k, "s2": s, "ms": abstract(c["ms"]), "rt": root(c["ms"]), "pseudo": c["pseudo"], "r": r}
    if k == "mass":
        pmu = array(c["ms"], s)
        arg = pmu if c["form"] == "array" else pmu.data
        n, form = len(c["ms"]), c["weights"]
        ws = [[rng.randint(-2, 5) for _ in range(4)] for _ in range(n)]
        if form == "col":
            ws = [[w[0]] * 4 for w in ws]
            weight = np.array([w[:1] for w in ws], dtype="<f8").reshape(-1, 1)
        elif form == "struct":
            weight = np.array([tuple(w) for w in ws], dtype=[(a, "<f8") for a in "xyze"])
        elif form == "bad":
            weight = rng.choice([ws, 2.0, tuple(ws[0]), "w"])
        else:
            weight = np.array(ws, dtype="<f8").reshape(-1, 4)
        fn = lambda: gcl.calculate.combined_mass(arg) if form == "none" else gcl.calculate.combined_mass(arg, weight)
        r = out(fn, lambda v: fixed(scalar(v), 10**6, s), {"c": "", "v": ZERO})
        return {"k": k, "ms": abstract(c["ms"]), "weighted": form in ("col", "full", "struct"), "refuse": form == "bad",
                "ws": abstract(ws), "r": r}
    if k == "centroid":
        pts = c["points"]
        pmu = gcl.MomentumArray(particles(pts))
        r = out(lambda: gcl.calculate.weighted_centroid(pmu, c["pseudo"]),
                lambda v: dict(zip(("rap", "phi"), (fixed(x, 10**8) for x in pair(v)))), NOTHING)
        raps = [p["eta"] if c["pseudo"] else rapidity(p) for p in pts]
        return {"k": k, "r": r, "pts": [big(p["pt"]) for p in pts], "raps": [fixed(x, 10**8)["v"] for x in raps],
                "phis": [fixed(p["phi"], 10**8)["v"] for p in pts]}
    if k == "prune":
        pts = c["points"]
        data = particles(pts)
        points = [{"eta": fixed(p["eta"], 10**8), "phi": fixed(p["phi"], 10**8)} for p in pts]
        if c["beam"] and pts:
            i = rng.randrange(len(pts))
            data[i] = [0.0, 0.0, -5.0, 5.0]
            points[i] = {"eta": {"c": "-inf", "v": ZERO}, "phi": {"c": "fin", "v": ZERO}}
        centre = tuple(c["centre"])
        pmu = gcl.MomentumArray(np.array(data, dtype="<f8").reshape(-1, 4))
        msk = c["mask"]
        e = {"points": points, "centre": {"eta": fixed(centre[0], 10**8)["v"], "phi": fixed(centre[1], 10**8)["v"]}}
    else:
        pmu = array(c["ms"], s)
        msk = c["mask"]
        fresh = array(c["ms"], s)
        points = [{"eta": fixed(a, 10**8), "phi": fixed(b if not math.isnan(b) else 0.0, 10**8)} for a, b in zip(fresh.eta, fresh.phi)]
        chosen = [m for m, b in zip(c["ms"], msk or [True] * len(c["ms"])) if b]
        t = array([total(chosen)], s)
        rap, phi = float(t.eta[0]), float(t.phi[0])
        centre = None
        e = {"points": points, "ms": abstract(c["ms"]), "s2": s, "rt": root(chosen), "ref": {"rap": hyper(rap), "phi": angle(phi)},
             "centre": {"eta": fixed(rap, 10**8)["v"], "phi": fixed(phi, 10**8)["v"]}}
    was = pmu.data.tobytes()
    kw = {}
    if msk is not None:
        kw["mask"] = gcl.MaskArray(msk)
    if centre is not None:
        kw["centre"] = centre
    r = out(lambda: gcl.select.centroid_prune(pmu, c["radius"], **kw), bools, [])
    e.update(k=k, r=r, radius=fixed(c["radius"], 10**8)["v"], mask=[True] * len(e["points"]) if msk is None else msk,
             same=pmu.data.tobytes() == was and (msk is None or kw["mask"].data.tolist() == msk))
    return e
