"""C20: C-parameter, thrust and spherocity."""
import math
import warnings
from fractions import Fraction

import numpy as np

import graphicle as gcl

from ..big import ZERO, big, fixed, nearest, scalar
from ..proj import BadProjection, out

U = 10**9


def vector(rng, size):
    v = [rng.randint(-size, size) for _ in range(3)]
    p = rng.random()
    if p < 0.08:
        v[0] = v[1] = 0
    elif p < 0.12:
        v[2] = 0
    return v


def cases(rng, tier, generated):
    quick = tier == "quick"
    for g in rng.sample(generated, min(len(generated), 350 if quick else 5000)):
        ms = list(g["ms"])
        yield {"k": "cpar", "s": rng.choice([0, -6, 11, -45, 60]), "ms": ms, "num": g["num"], "den": g["den"]}
    for _ in range(700 if quick else 12000):
        k = rng.choice(["cpar", "thrust", "thrust", "sphero", "sphero"])
        size = rng.choice([3, 20, 20, 1000])
        n = rng.choice([1, 2, 3, 4, rng.randint(2, 9)])
        style = rng.random()
        if style < 0.2:  # along one line
            d = vector(rng, min(size, 20))
            ms = [[t * v for v in d] for t in (rng.randint(-6, 6) for _ in range(n))]
        elif style < 0.45:  # back to back jets
            d = vector(rng, size)
            ms = [[rng.choice([-1, 1, 2]) * v * 5 + rng.randint(-size // 3, size // 3) for v in d] for _ in range(n)]
        else:
            ms = [vector(rng, size) for _ in range(n)]
        if rng.random() < 0.25:
            ms.insert(rng.randint(0, len(ms)), [0, 0, 0])
        if rng.random() < 0.1:
            ms = ms + ms[: rng.randint(1, len(ms))]
        if not any(any(m) for m in ms):
            continue
        if k == "cpar" and rng.random() < 0.2:  # of very different sizes
            ms = [[v << up for v in m] for m in ms for up in [rng.choice([0, 0, 10, 25])]]
        yield {"k": k, "s": rng.choice([0, 0, rng.randint(-12, 12), rng.randint(-60, 60)]), "ms": ms, "seed": rng.choice([0, rng.randrange(1 << 30), rng.randrange(1 << 30)]),
               "rest": rng.random() < 0.5}


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def axis_of(a):
    if not isinstance(a, np.ndarray) or a.shape != (3,) or a.dtype != np.dtype("<f8"):
        raise BadProjection("not an axis")
    return a.tolist()


def around(n):
    """The axis turned by 10^-3 in six directions, in units of 10^-9."""
    n = np.array(n)
    a = np.cross(n, np.eye(3)[np.abs(n).argmin()])
    a /= np.linalg.norm(a)
    b = np.cross(n, a)
    res = []
    for i in range(6):
        t = 2 * math.pi * i / 6
        m = n * math.cos(1e-3) + (a * math.cos(t) + b * math.sin(t)) * math.sin(1e-3)
        res.append([round(float(v) * U) for v in m])
    return res


def attempt(fn, pmu, seed, ms, k):
    first = {"v": 0.0, "n": [0.0, 0.0, 1.0]}

    def pair(v):
        if not isinstance(v, tuple) or len(v) != 2:
            raise BadProjection("not a pair")
        first["v"], first["n"] = scalar(v[0]), axis_of(v[1])
        return {"v": fixed(first["v"], U), "n": [fixed(x, U) for x in first["n"]]}

    none = {"v": {"c": "", "v": ZERO}, "n": [{"c": "", "v": ZERO}] * 3}
    r = out(lambda: fn(pmu, return_axis=True, rng_seed=seed), pair, none)
    n = first["n"]
    fine = r["ok"] and all(map(math.isfinite, n))
    probes = around(n) if fine else []
    t = {"ok": r["ok"], "v": r["v"]["v"], "n": r["v"]["n"], "probes": [[big(v) for v in m] for m in probes], "_": first}
    if k == "sphero":
        def roots(m):
            return [big(math.isqrt(sum(v * v for v in cross(p, m)))) for p in ms]

        t["cw"] = roots([nearest(Fraction(x) * U) for x in n]) if fine else []
        t["pw"] = [roots(m) for m in probes]
    return t


def run(c):
    warnings.simplefilter("ignore")
    k, s, ms = c["k"], c["s"], c["ms"]
    data = [[math.ldexp(v, s) for v in m] + [math.ldexp(math.isqrt(dot(m, m)) + (1 if any(m) else i % 2), s)] for i, m in enumerate(ms)]
    pmu = gcl.MomentumArray(np.array(data, dtype="<f8"))
    was = pmu.data.tobytes()
    w = [math.isqrt(dot(m, m) * U * U) for m in ms]
    e = {"k": k, "ms": [[big(v) for v in m] for m in ms], "w": [big(v) for v in w]}
    if k == "cpar":
        e["r"] = out(lambda: gcl.calculate.c_parameter(pmu), lambda v: fixed(scalar(v), U), {"c": "", "v": ZERO})
        e["q"] = [[big(dot(a, b) ** 2 * U**4 // (w[i] * w[j])) if w[i] and w[j] else ZERO for j, b in enumerate(ms)]
                  for i, a in enumerate(ms)]
        for name in ("num", "den"):
            if name in c:
                e[name] = c[name]
        e["same"] = pmu.data.tobytes() == was
        return e
    fn = gcl.calculate.thrust if k == "thrust" else gcl.calculate.spherocity
    seed = c["seed"]
    tries = [attempt(fn, pmu, seed + i, ms, k) for i in range(4)]
    first = tries[0].pop("_")
    for t in tries[1:]:
        t.pop("_")
    n = first["n"]
    e["tries"] = tries
    e["axis"] = [x.hex() for x in n]

    def again(kw, proj):
        a = out(lambda: fn(pmu, **kw), proj, {"hex": "", "axis": []})
        return {"ok": a["ok"], **a["v"]}

    def alone(v):
        return {"hex": scalar(v).hex(), "axis": []}

    def both(v):
        return {"hex": scalar(v[0]).hex(), "axis": [x.hex() for x in axis_of(v[1])]}

    e["calls"] = [{"ok": tries[0]["ok"], "hex": first["v"].hex(), "axis": []},
                  again({"rng_seed": seed}, alone),
                  again({"rng_seed": seed, "return_axis": False}, alone),
                  again({"rng_seed": seed, "return_axis": True}, both)]
    e["same"] = pmu.data.tobytes() == was
    return e
