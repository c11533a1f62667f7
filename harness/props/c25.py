"""C25: randomly drawn momenta."""
import math

import numpy as np

import graphicle as gcl

from ..big import fixed

SHARDS = 8


def cases(rng, tier, generated):
    quick = tier == "quick"
    for g in generated:
        yield {"k": "draw", "size": g["size"], "top": rng.choice([1.0, 100.0]), "q": g["q"], "seed": g["seed"], "form": "plain"}
    for i in range(14 if quick else 160):
        yield {"k": "many", "size": rng.choice([4000, 12000, 20000] if quick else [4000, 20000, 60000]),
               "top": rng.choice([1.0, 7.0, 1e3, 1e-3, 13000.0]), "q": rng.choice([0, 0, 1000, 500, rng.randint(1, 999), rng.randint(20, 900)]),
               "seed": rng.randrange(1 << 32)}
    for q in (10, 990) if quick else (4, 10, 20, 980, 990, 996):
        yield {"k": "many", "size": 40000 if quick else 90000, "top": 10.0, "q": q, "seed": rng.randrange(1 << 32)}
    for size in (1, 2, 5) if quick else (1, 1, 2, 3, 5, 9, 30):
        for position in {0, size - 1}:  # the same row of many draws
            yield {"k": "many", "size": size, "draws": 2500 if quick else 6000, "at": position,
                   "top": rng.choice([1.0, 50.0]), "q": rng.choice([0, 1000, 500]), "seed": rng.randrange(1 << 32)}
    for i in range(350 if quick else 6000):
        c = {"k": "draw", "size": rng.choice([0, 1, 2, 3, rng.randint(0, 60)]), "top": 10.0 ** rng.uniform(-6, 6), "seed": rng.randrange(1 << 40),
             "q": rng.choice([0, 0, 1000, rng.randint(0, 1000)]), "form": rng.choice(["plain", "kw", "numpy", "none"])}
        if i % 9 == 0:
            c["bad"] = rng.choice([-0.1, 1.1, -1e-9, 1 + 1e-9, 2, -1, math.inf, -math.inf, "nan"])
        yield c


def draw(c, q, seed):
    f = gcl.MomentumArray.from_spherical_uniform
    form = c.get("form", "plain")
    if form == "kw":
        return f(size=c["size"], max_energy=c["top"], massless=q, seed=seed)
    if form == "numpy":
        return f(np.int64(c["size"]), np.float64(c["top"]), np.float64(q), seed)
    if q == 0.0 and form == "none":
        return f(c["size"], c["top"], seed=seed)
    return f(c["size"], c["top"], q, seed)


def run(c):
    q = c["q"] / 1000
    if "bad" in c:
        q = math.nan if c["bad"] == "nan" else c["bad"]
    e = {"k": c["k"], "size": c["size"], "q": c["q"], "ok": True, "rows": [], "refuse": "bad" in c, "repeated": True, "varied": True}
    try:
        p = draw(c, q, c["seed"])
        if "draws" in c:
            e["size"] = c["draws"]
            p = gcl.MomentumArray(np.array([draw(c, q, c["seed"] + i).data[c["at"]].item() for i in range(c["draws"])]))
        if not isinstance(p, gcl.MomentumArray):
            raise TypeError("not momenta")
    except Exception as x:
        e["ok"] = False
        e["exc"] = type(x).__name__
        return e
    rows = np.asarray(p.data).view("<f8").reshape(-1, 4)
    if c["k"] == "many":
        u = rows / c["top"]
        mass2 = (rows[:, 3] ** 2 - (rows[:, :3] ** 2).sum(axis=1)) / np.maximum(rows[:, 3] ** 2, 1e-300)
        ints = np.clip(np.nan_to_num(np.rint(u[:, :3] * 10000), nan=0.0), -30000, 30000).astype(int)
        en = np.clip(np.nan_to_num(np.floor(u[:, 3] * 10000), nan=-1.0), -30000, 30000).astype(int)
        flags = (mass2 < 1e-12).astype(int)
        fine = ((mass2 > -1e-12) & (mass2 <= 1 + 1e-12)).astype(int)
        e["rows"] = [[*a, b, f, g] for a, b, f, g in zip(ints.tolist(), en.tolist(), flags.tolist(), fine.tolist())]
        return e
    e["rows"] = [dict(zip("xyze", (fixed(v / c["top"], 10**12)["v"] if math.isfinite(v) else fixed(9e9, 10**12)["v"] for v in r))) for r in rows.tolist()]
    np.random.random(c["seed"] % 3)
    draw(c, 0.5, 99)
    again = draw(c, q, c["seed"])
    other = draw(c, q, c["seed"] + 1)
    free = [draw(c, q, None).data.tobytes() for _ in range(2)]
    e["repeated"] = again.data.tobytes() == p.data.tobytes()
    e["varied"] = other.data.tobytes() != p.data.tobytes() and free[0] != free[1]
    return e
