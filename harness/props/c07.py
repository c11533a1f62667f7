"""C07: derived kinematics against the four-momentum components."""
import math
import warnings

import numpy as np

import graphicle as gcl

from ..big import angle, big, expo, fixed, floats, hyper, whole
from ..proj import out

SHIFTS = ["phi", "phi", "phi", "phis", "phis", "rap", "raps", "eta", "add", "scale", "sum", "gather", "split", "hardest"]

QUANTITIES = ["x", "y", "z", "energy", "pt", "phi", "theta", "eta", "rapidity", "mass", "mass_t"]


def component(rng, size):
    style = rng.random()
    if style < 0.15:
        return 0
    if style < 0.35:
        return rng.randint(-3, 3)
    return rng.randint(-size, size)


def momentum(rng, size):
    style = rng.random()
    x, y, z = (component(rng, size) for _ in range(3))
    if style < 0.1:
        x = y = 0
    elif style < 0.15:
        x, y = rng.choice([(1, 0), (0, -1), (-1, 0), (3, 4), (-1, -1)])
    elif style < 0.2:
        z = 0
    p2 = x * x + y * y + z * z
    p = math.isqrt(p2)
    style = rng.random()
    if style < 0.1:
        e = p
    elif style < 0.2:
        e = rng.randint(0, p)
    elif style < 0.3:
        e = p + 1
    elif style < 0.35:
        e = abs(z)
    elif style < 0.4:
        x, y, z, e = rng.choice([(3, 4, 12, 13), (-2, 3, 6, 7), (1, -2, -2, 3), (0, 0, 0, 0), (0, 0, 0, 5), (0, 0, -4, 4), (0, 0, 7, 9)])
    else:
        e = p + 1 + rng.randint(0, size)
    return [x, y, z, e]


def contents(rng, longest=9):
    size = rng.choice([5, 100, 10**4, 10**6, 2**40])
    n = rng.choice([0, 1, 1, 2, 3, rng.randint(1, longest)])
    return [momentum(rng, size) for _ in range(n)]


def requests(rng):
    style = rng.random()
    if style < 0.5:
        return rng.sample(QUANTITIES, len(QUANTITIES))
    return [rng.choice(QUANTITIES) for _ in range(rng.randint(1, 9))]


def cases(rng, tier, generated):
    for g in generated:
        yield {"k": "kin", "s": rng.choice([0, 0, -3, 10]), "steps": [
            {"do": "new", "ms": g["ms"], "req": g["req"]}]}
    total = 900 if tier == "quick" else 14000
    for _ in range(total):
        s = rng.choice([0, 0, 0, rng.randint(-20, 20), -33, -34, rng.randint(-45, -28),
                        rng.choice([rng.randint(500, 900), rng.randint(-1000, -550)])])
        steps = [{"do": "new", "ms": contents(rng), "req": requests(rng)}]
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            do = rng.choice(["set", "set", "pick", "copy", "again", "double", "slice", "derive", "derive", "derive", "derive"])
            steps.append({"do": do, "ms": contents(rng), "req": requests(rng),
                          "seed": rng.randrange(1 << 30)})
        yield {"k": "kin", "s": s, "steps": steps}
    for _ in range(3 if tier == "quick" else 40):     # long arrays
        size = rng.choice([100, 10**6])
        ms = [momentum(rng, size) for _ in range(rng.choice([65, 129, 200, 300]))]
        yield {"k": "kin", "s": rng.choice([0, -3, 10]), "steps": [{"do": "new", "ms": ms, "req": rng.sample(QUANTITIES, len(QUANTITIES))}]}


PROJ = {
    "pt": lambda x, s: fixed(x, 10**6, s), "mass": lambda x, s: fixed(x, 10**6, s),
    "mass_t": lambda x, s: fixed(x, 10**6, s),
    "phi": lambda x, s: angle(x), "theta": lambda x, s: angle(x),
    "eta": lambda x, s: hyper(x), "rapidity": lambda x, s: expo(x),
}


def request(pmu, q, s):
    f = PROJ.get(q, lambda x, s: {"c": "fin", "v": whole(x, s)})
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        r = out(lambda: getattr(pmu, q), lambda a: [f(x, s) for x in floats(a)], [])
    warned = any(issubclass(w.category, gcl.base.NumericalStabilityWarning) for w in ws)
    return {"q": q, "r": r, "warned": warned}


def abstract(m):
    x, y, z, e = m
    return {"x": big(x), "y": big(y), "z": big(z), "e": big(e),
            "rt": big(math.isqrt((x * x + y * y) * 10**12))}


def array(ms, s):
    return np.array([[math.ldexp(v, s) for v in m] for m in ms], dtype="<f8").reshape(-1, 4)


def derived(pmu, rng):
    """Another object, computed from one whose quantities may be known."""
    how = rng.choice(SHIFTS)
    shift = rng.choice([1.0, -1.0, 2.5, -3.0, 0.0, rng.uniform(-6, 6)])
    many = np.array([rng.uniform(-3, 3) for _ in range(len(pmu))])
    if how == "phi":
        return pmu.shift_phi(shift)
    if how == "phis":
        return pmu.shift_phi(many)
    if how == "rap":
        return pmu.shift_rapidity(shift)
    if how == "raps":
        return pmu.shift_rapidity(many)
    if how == "eta":
        return pmu.shift_eta(shift / 4)
    if how == "add":
        return pmu + pmu
    if how == "scale":
        return 3.0 * pmu
    if how == "sum":
        return np.sum(pmu, axis=0)
    if how == "gather":
        return gcl.calculate.aggregate_momenta(pmu, [gcl.MaskArray(many > 0), gcl.MaskArray(many < 1)])
    axis = (rng.uniform(0, 3), rng.uniform(-3, 3))
    if how == "split":
        return gcl.transform.split_momentum(pmu[:1], 0.25, shift, axis)
    return gcl.transform.split_hardest(pmu, 0.25, shift, axis)


def units(pmu):
    """Components as whole numbers of a common power of two."""
    rows = [[float(v).as_integer_ratio() for v in row] for row in pmu.data.tolist()]
    most = max([d.bit_length() - 1 for row in rows for _, d in row], default=0)
    return -most, [[n << (most - d.bit_length() + 1) for n, d in row] for row in rows]


def run(c):
    import random
    s, events = c["s"], []
    pmu, ms = None, []
    for step in c["steps"]:
        do, rng = step["do"], random.Random(step.get("seed", 0))
        first = True
        if do == "new":
            ms = step["ms"]
            pmu = gcl.MomentumArray(array(ms, s))
        elif do == "set":
            ms = step["ms"]
            pmu.data = array(ms, s)
        elif do == "pick":
            idx = [rng.randrange(len(ms)) for _ in range(rng.randint(1, 6))] if ms else []
            ms = [ms[i] for i in idx]
            pmu = pmu[np.array(idx, dtype=int)]
        elif do == "slice":
            a, b, d = rng.randint(0, len(ms)), rng.randint(0, len(ms)), rng.choice([1, 1, 2, -1])
            ms, pmu = ms[a:b:d], pmu[a:b:d]
        elif do == "copy":
            pmu = pmu.copy()
        elif do == "double":
            np.multiply(pmu, 2.0, out=pmu)
            ms = [[2 * v for v in m] for m in ms]
        elif do == "derive":
            if not ms or abs(s) > 100:
                continue
            try:
                pmu = derived(pmu, rng)
            except Exception:
                break  # what may be derived is the business of others
            if not all(math.isfinite(v) for row in pmu.data.tolist() for v in row):
                break
            s, ms = units(pmu)
            if any(v.bit_length() > 400 for m in ms for v in m):
                break
        elif do == "again":
            first = False
        req = []
        asked = set()
        for q in step["req"]:
            r = request(pmu, q, s)
            r["first"] = first and q not in asked
            asked.add(q)
            req.append(r)
        events.append({"k": "kin", "do": do, "s2": s, "ms": [abstract(m) for m in ms], "req": req})
    return events
