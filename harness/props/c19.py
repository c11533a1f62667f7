"""C19: rotations and the splitting of momenta."""
import math
import warnings

import numpy as np

import graphicle as gcl

from ..big import ZERO, big, fixed, nearest
from ..proj import BadProjection, out
from fractions import Fraction

UNIT = 10**18


def direction(x):
    """An angle as a point of the circle of radius 10^12."""
    x = float(x)
    if not math.isfinite(x):
        return {"c": "bad", "co": ZERO, "si": ZERO}
    return {"c": "fin", "co": big(nearest(Fraction(math.cos(x)) * 10**12)), "si": big(nearest(Fraction(math.sin(x)) * 10**12))}


def angle(rng):
    p = rng.random()
    if p < 0.1:
        return 0.0
    if p < 0.3:
        return rng.choice([-1, 1]) * rng.choice([1, 2, 3, 4, 6]) * math.pi / rng.choice([1, 2, 3, 6])
    if p < 0.5:
        return rng.choice([-1, 1]) * 10 ** rng.uniform(-5, 0)
    return rng.uniform(-7, 7)


def axis(rng):
    p = rng.random()
    if p < 0.06:
        return [0.0, rng.choice([0.0, 0.0, 1.0])]
    if p < 0.15:
        return [rng.choice([0.0, math.pi, math.pi / 2]), rng.choice([0.0, math.pi / 2, math.pi, -math.pi / 2])]
    if p < 0.25:
        return [rng.uniform(-4, 7), rng.uniform(-9, 9)]
    return [math.acos(rng.uniform(-1, 1)), rng.uniform(-math.pi, math.pi)]


def fraction(rng):
    p = rng.random()
    if p < 0.2:
        return 0.5
    if p < 0.35:
        return 10 ** rng.uniform(-4, -1)
    return rng.uniform(0.001, 0.5)


def momentum(rng, size):
    x, y, z = (rng.randint(-size, size) for _ in range(3))
    p = rng.random()
    if p < 0.1:
        x = y = 0
    elif p < 0.2:
        z = 0
    e = math.isqrt(x * x + y * y + z * z) + rng.choice([0, 1, 1, rng.randint(0, size)])
    if rng.random() < 0.1:
        e = rng.randint(0, size)
    return [x, y, z, e]


def cases(rng, tier, generated):
    quick = tier == "quick"
    for g in generated:
        o = g["ops"][-1]
        x, y, z, n = o["axis"]
        c, s, _ = o["turn"]
        ax = [math.acos(z / n), math.atan2(y, x)]
        yield {"k": "matrix", "turn": math.atan2(s, c), "axis": ax, "form": "named"}
        yield {"k": "split", "s": 0, "p": rng.choice([[1, 2, 3, 4], [-2, 0, 5, 6]]), "turn": math.atan2(s, c), "axis": ax,
               "z": rng.choice([0.5, 0.25, 0.125]), "form": "tuple", "n": 1}
    for _ in range(900 if quick else 15000):
        k = rng.choice(["matrix", "split", "split", "axis", "hardest", "hardest", "hardest"])
        size = rng.choice([1, 5, 100, 10**5])
        c = {"k": k, "s": rng.choice([0, 0, rng.randint(-12, 12)]), "turn": angle(rng), "axis": axis(rng),
             "z": fraction(rng), "form": rng.choice(["named", "tuple"])}
        if k == "split":
            c["p"] = momentum(rng, size)
            c["n"] = rng.choice([1] * 12 + [2, 3])
        elif k in ("axis", "hardest"):
            n = rng.choice([1, 2, 2, 3, rng.randint(2, 12)])
            ms = [momentum(rng, size) for _ in range(n)]
            if k == "hardest":
                if rng.random() < 0.12:
                    c["z"] = rng.choice([0.0, -0.25, 0.5000001, 0.75, 1.0, 2.0, float("nan"), -0.0])
                    if c["z"] != c["z"]:
                        c["z"] = "nan"
                c["given"] = rng.random() < 0.5
            at = rng.randrange(n)
            if rng.random() < 0.5:  # the hardest anywhere, the last and the first included
                at = rng.choice([0, n - 1, at])
                ms[at] = [rng.choice([-1, 1]) * 2 * size, rng.randint(-size, size), rng.randint(-size, size), 4 * size]
            if n > 1 and rng.random() < 0.1:
                ms[rng.randrange(n)] = list(ms[at])
            c["ms"] = ms
        yield c
    for _ in range(4 if quick else 40):               # many particles
        n = rng.choice([33, 65, 90])
        ms = [momentum(rng, 100) for _ in range(n)]
        ms[rng.choice([0, n - 1, rng.randrange(n)])] = [200, rng.randint(-100, 100), 7, 400]
        yield {"k": "hardest", "s": 0, "turn": angle(rng), "axis": axis(rng), "z": fraction(rng), "form": "named", "given": rng.random() < 0.5, "ms": ms}


def array(ms, s):
    return gcl.MomentumArray(np.array([[math.ldexp(v, s) for v in m] for m in ms], dtype="<f8").reshape(-1, 4))


def rows(pmu, s):
    if not isinstance(pmu, gcl.MomentumArray):
        raise BadProjection("not momenta")
    return [[fixed(r[a], UNIT, s) for a in "xyze"] for r in pmu.data]


def whole4(m):
    return [big(v) for v in m]


def angles(v):
    if not isinstance(v, gcl.transform.SphericalAngle):
        raise BadProjection("not an angle")
    return {"th": direction(v.theta), "ph": direction(v.phi)}


NO_ANGLES = {"th": direction(math.nan), "ph": direction(math.nan)}


def square(m):
    if not isinstance(m, np.ndarray) or m.shape != (3, 3) or m.dtype != np.dtype("<f8"):
        raise BadProjection("not a 3 x 3 matrix")
    return [[fixed(v, 10**12) for v in r] for r in m.tolist()]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def lengths(ms):
    """Candidate lengths of the normal, in units of 10^-12."""
    pts = [m[0] ** 2 + m[1] ** 2 for m in ms]
    res = set()
    for i in (i for i, p in enumerate(pts) if p == min(pts)):
        for j in (j for j, p in enumerate(pts) if p == max(pts)):
            k = cross(ms[i], ms[j])
            res.add(math.isqrt(sum(v * v for v in k) * 10**24))
    return [big(v) for v in sorted(res)]


def run(c):
    warnings.simplefilter("ignore")
    k, s = c["k"], c.get("s", 0)
    turn = c["turn"]
    ax = gcl.transform.SphericalAngle(*c["axis"]) if c["form"] == "named" else tuple(c["axis"])
    e = {"k": k, "turn": direction(turn), "th": direction(c["axis"][0]), "ph": direction(c["axis"][1])}
    if k == "matrix":
        e["r"] = out(lambda: gcl.transform.rotation_matrix(turn, gcl.transform.SphericalAngle(*c["axis"])), square, [])
        return e
    z = c.get("z")
    z = math.nan if z == "nan" else z
    e["z"] = fixed(z, UNIT)["v"]
    if k == "split":
        pmu = array([c["p"]] * c["n"], s)
        was = pmu.data.tobytes()
        e.update(p=whole4(c["p"]), refuse=c["n"] > 1,
                 r=out(lambda: gcl.transform.split_momentum(pmu, z, turn, ax), lambda p: rows(p, s), []))
    else:
        ms = c["ms"]
        pmu = array(ms, s)
        was = pmu.data.tobytes()
        e["ms"] = [whole4(m) for m in ms]
        if k == "axis":
            e["r"] = out(lambda: gcl.transform.soft_hard_axis(pmu), angles, NO_ANGLES)
        else:
            e.update(given=c["given"], refuse=not (0.0 < z <= 0.5) or (not c["given"] and len(ms) < 2), lengths=lengths(ms),
                     r=out(lambda: gcl.transform.split_hardest(pmu, z, turn, ax) if c["given"]
                           else gcl.transform.split_hardest(pmu, z, turn), lambda p: rows(p, s), []))
    e["same"] = pmu.data.tobytes() == was
    return e
