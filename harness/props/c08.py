"""C08: rotations about the beam, boosts and pseudorapidity shifts."""
import math
import random
import warnings

import numpy as np

import graphicle as gcl

from ..big import ZERO, big, fixed
from ..proj import BadProjection, out

FORMS = ["float", "float", "npfloat", "array", "array", "int"]


# shifts are whole multiples of one over this
UNITS = [64, 64, 64, 64, 2**14, 2**25, 2**30, 2**36]


def particle(rng, size, massless=False):
    style = rng.random()
    x, y, z = (rng.randint(-size, size) for _ in range(3))
    if style < 0.12:
        x = y = 0
    elif style < 0.2:
        z = 0
    p = math.isqrt(x * x + y * y + z * z)
    e = p + 1 + (0 if massless else rng.choice([0, 0, rng.randint(0, size)]))
    if x == y == 0 and rng.random() < 0.6:
        e = abs(z)
    return [x, y, z, e]


def space_like(rng, m):
    """Less energy than momentum: boosts and rotations are linear all the same."""
    return m[:3] + [rng.randint(0, max(map(abs, m[:3])))]


def shifts(rng, n, reach, chain=None):
    """A chain of shifts; multiples of 1/64, so that they add up exactly."""
    chain = rng.choice([1, 1, 1, 2, 3]) if chain is None else chain
    res = []
    for _ in range(chain):
        form = rng.choice(FORMS)
        if form == "array":
            v = [rng.randint(-64 * reach, 64 * reach) for _ in range(n)]
        elif form == "int":
            v = [64 * rng.randint(-reach, reach)] * n
        else:
            v = [rng.randint(-64 * reach, 64 * reach)] * n
        if rng.random() < 0.08:
            v = [0] * n
        elif rng.random() < 0.1:
            v = [a if rng.random() < 0.5 else 0 for a in v] if form == "array" else v
        res.append({"form": form, "v": v})
    if chain > 1 and rng.random() < 0.3:
        res[-1] = {"form": res[0]["form"], "v": [-a for a in res[0]["v"]]}
    return res


def cases(rng, tier, generated):
    quick = tier == "quick"
    for g in rng.sample(generated, min(len(generated), 300 if quick else 4000)):
        yield {"k": "walk", "start": g["start"], "ops": g["ops"], "s": rng.choice([0, 0, -4, 12])}
    for _ in range(900 if quick else 16000):
        k = rng.choice(["phi", "rap", "eta", "exp", "eta"])
        size = rng.choice([3, 50, 1000, 1000])
        ms = [particle(rng, size) for _ in range(rng.choice([1, 1, 2, 3, rng.randint(1, 7)]))]
        if k != "eta" and rng.random() < 0.03:
            ms = []
        c = {"k": k, "s": rng.choice([0, 0, rng.randint(-10, 10)]), "ms": ms, "warm": rng.random() < 0.4}
        if k == "phi":
            c["shifts"] = shifts(rng, len(ms), rng.choice([7, 7, 7, 40, 300]))
            c["unit"] = rng.choice(UNITS)
        elif k == "rap":
            c["ms"] = ms = [space_like(rng, m) if rng.random() < 0.15 else m for m in ms]
            c["shifts"] = shifts(rng, len(ms), 20, 1) if rng.random() < 0.15 else shifts(rng, len(ms), 4)
            c["unit"] = rng.choice(UNITS)
        elif k == "exp":
            c["shifts"] = shifts(rng, len(ms), 3)
        else:
            while not moderate(ms):
                ms = [particle(rng, size) for _ in range(rng.randint(1, 6))]
            c["ms"] = ms
            c["shifts"] = [dict(t, form="float" if t["form"] == "array" else t["form"], v=t["v"][:1] * len(ms))
                           for t in shifts(rng, len(ms), 3)]
            c["tight"] = rng.random() < 0.2
        yield c
    for i in range(4 if quick else 40):               # long arrays
        k = ["phi", "rap", "exp", "phi"][i % 4]
        ms = [particle(rng, 50) for _ in range(rng.choice([33, 65, 90]))]
        yield {"k": k, "s": 0, "ms": ms, "warm": rng.random() < 0.5, "unit": rng.choice(UNITS), "shifts": shifts(rng, len(ms), 3)}


def moderate(ms):
    x, y, z, e = (sum(m[i] for m in ms) for i in range(4))
    return x * x + y * y > 0 and z * z <= 400 * (x * x + y * y)


def value(shift, unit):
    v = [a / unit for a in shift["v"]]
    form = shift["form"]
    if form == "array":
        return np.array(v, dtype="<f8")
    if not v:
        return 0.5
    if form == "int" and unit == 64:
        return int(v[0])
    return np.float64(v[0]) if form == "npfloat" else float(v[0])


def measured(pmu, s):
    if not isinstance(pmu, gcl.MomentumArray):
        raise BadProjection("not momenta")
    rows = pmu.data
    return [{n: fixed(r[n], 10**9, s) for n in "xyze"} for r in rows]


def signed(b):
    n = 0
    for limb in reversed(b[1]):
        n = n * 10000 + limb
    return b[0] * n


def root(*squares):
    return big(math.isqrt(sum(a * a for a in squares)))


def run(c):
    k, s = c["k"], c["s"]
    if k == "walk":
        rows = [[v["x"], v["y"], (v["p"] - v["q"]) / 2, (v["p"] + v["q"]) / 2] for v in c["start"]]
        pmu = gcl.MomentumArray([[math.ldexp(a, s) for a in r] for r in rows])
        after = []
        ln2 = math.log(2.0)
        for i, o in enumerate(c["ops"]):
            unit = math.pi / 2 if o["kind"] == "phi" else ln2
            n = o["n"]
            shift = n[0] * unit if n[0] == n[1] else np.array(n, dtype="<f8") * unit
            call = "shift_phi" if o["kind"] == "phi" else "shift_rapidity"
            keep = {}

            def go():
                keep["p"] = getattr(pmu, call)(shift)
                return keep["p"]

            after.append(out(go, lambda p: measured(p, s), []))
            pmu = keep.get("p", pmu)
        return {"k": k, "start": c["start"], "ops": c["ops"], "after": after}
    ms, unit = c["ms"], c.get("unit", 64)
    pmu = gcl.MomentumArray(np.array([[math.ldexp(v, s) for v in m] for m in ms], dtype="<f8").reshape(-1, 4))
    if c["warm"]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            pmu.eta, pmu.phi, pmu.rapidity, pmu.mass, pmu.mass_t, pmu.theta
    before = pmu.data.tobytes()

    def go():
        p = pmu
        for t in c["shifts"]:
            if k == "phi":
                p = p.shift_phi(value(t, unit))
            elif k == "rap":
                p = p.shift_rapidity(value(t, unit))
            elif k == "exp":
                p = p.shift_eta(value(t, unit), experimental=True)
            elif c["tight"]:
                p = p.shift_eta(value(t, unit), False, 20, 1e-9)
            else:
                p = p.shift_eta(value(t, unit))
        return p

    r = out(go, lambda p: measured(p, s), [])
    n = len(ms)
    total = [sum(t["v"][i] for t in c["shifts"]) / unit if c["shifts"][0]["v"] else 0.0 for i in range(n)]
    if k == "phi":
        by = [{"co": big(round(math.cos(a) * 1e12)), "si": big(round(math.sin(a) * 1e12))} for a in total]
    else:
        amp = [math.ceil(math.exp(sum(abs(t["v"][i]) for t in c["shifts"]) / unit)) for i in range(n)]
        by = [{"up": big(round(math.exp(a) * 1e12)), "down": big(round(math.exp(-a) * 1e12)), "amp": amp[i]}
              for i, a in enumerate(total)]
    e = {"k": k, "ms": [dict(zip("xyze", map(big, m))) for m in ms], "by": by, "r": r,
         "same": pmu.data.tobytes() == before}
    if k == "eta":
        x, y, z = (sum(m[i] for m in ms) * 10**9 for i in range(3))
        e["w1"] = root(x, y, z)
        e["w2"] = root(*(sum(signed(v[a]["v"]) for v in r["v"]) for a in "xyz"))
    elif k == "exp":
        e["w1"] = [root(*(a * 10**9 for a in m[:3])) for m in ms]
        e["w2"] = [root(*(signed(v[a]["v"]) for a in "xyz")) for v in r["v"]]
    return e
