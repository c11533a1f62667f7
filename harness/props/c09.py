"""C09: angular distances between sets of particles."""
import math
import random

import numba as nb
import numpy as np

import graphicle as gcl

from ..big import ZERO, big, fixed
from ..proj import BadProjection, out


def point(rng):
    style = rng.random()
    if style < 0.06:
        return {"t": "beam", "z": rng.choice([-1, 1]) * rng.uniform(0.5, 50.0), "m": rng.choice([0, 0, 1])}
    if style < 0.08:
        return {"t": "rest", "m": rng.uniform(0.5, 3.0)}
    phi = rng.choice([rng.uniform(-math.pi, math.pi), rng.choice([-1, 1]) * (math.pi - 10 ** rng.uniform(-7, -1)),
                      rng.choice([math.pi, 0.0, math.pi / 2, -math.pi / 2])])
    return {"t": "gen", "eta": rng.choice([rng.uniform(-8, 8), rng.uniform(-1, 1), 0.0]), "phi": phi,
            "pt": 10 ** rng.uniform(-3, 4), "m": rng.choice([0.0, 0.0, rng.uniform(0, 3)])}


def lattice_point(p):
    n, m = p
    if abs(n) == 99:
        return {"t": "beam", "z": math.copysign(3.0, n), "m": 0}
    return {"t": "gen", "eta": n * 0.5, "phi": m * math.pi / 8, "pt": 2.0, "m": 0.0}


def cases(rng, tier, generated):
    pairs = rng.sample(generated, len(generated))
    for i in range(0, len(pairs), 6):
        chunk = pairs[i:i + 6]
        yield {"k": "dist", "a": [lattice_point(g["a"]) for g in chunk], "b": [lattice_point(g["b"]) for g in chunk],
               "calls": [{"how": h, "pseudo": rng.random() < 0.6, "threads": rng.randint(1, 4)} for h in ("two", "self", "swap")],
               "around": rng.randint(1, 4), "s": rng.randrange(1 << 30)}
    for i in range(5 if tier == "quick" else 60):
        a, b = ([point(rng) for _ in range(n)] for n in (rng.randint(64, 140), rng.randint(1, 2)))
        yield {"k": "dist", "a": a, "b": b, "calls": [{"how": rng.choice(["two", "swap"]), "pseudo": rng.random() < 0.5, "threads": rng.randint(1, 4)}],
               "around": rng.randint(1, 4), "s": rng.randrange(1 << 30)}
    for _ in range(500 if tier == "quick" else 9000):
        big_set = rng.random() < 0.1
        a = [point(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, rng.randint(2, 20 if big_set else 6)]))]
        b = [point(rng) for _ in range(rng.choice([0, 1, 2, rng.randint(1, 12 if big_set else 6)]))]
        if a and rng.random() < 0.3:
            b = b[:2] + [rng.choice(a)] + b[2:]
        calls = []
        for _ in range(rng.randint(1, 5)):
            how = rng.choice(["two", "two", "swap", "self", "self", "copy", "affinity", "refused", "weighted", "window"])
            calls.append({"how": how, "pseudo": rng.random() < 0.5, "threads": rng.choice([1, 1, 2, 3, 4]),
                          "bad": rng.choice(["threads0", "threads99", "broken", "none"]),
                          "default": rng.random() < 0.2, "exp": rng.choice([None, -0.1, -1.0, -0.5, 0.0, 0.0, 1.0, 0.3])})
        if any(call["how"] == "weighted" for call in calls) and rng.random() < 0.3:
            special = rng.choice([{"t": "beam", "z": 3.0, "m": rng.choice([0, 1])}, {"t": "rest", "m": 1.0}])
            a.insert(rng.randint(0, len(a)), special)
        yield {"k": "dist", "a": a, "b": b, "calls": calls, "around": rng.randint(1, 4), "s": rng.randrange(1 << 30)}


def build(p):
    """Components, and the abstract point."""
    nan = {"c": "nan", "v": ZERO}
    none = {"c": "none", "v": ZERO}
    if p["t"] == "beam":
        z = p["z"]
        e = abs(z) * (1.25 if p["m"] else 1.0)
        inf = {"c": "+inf" if z > 0 else "-inf", "v": ZERO}
        rap = fixed(0.5 * math.log((e + z) / (e - z)), 10**8) if p["m"] else inf
        return [0.0, 0.0, z, e], {"eta": inf, "rap": rap, "phi": none}
    if p["t"] == "rest":
        return [0.0, 0.0, 0.0, p["m"]], {"eta": nan, "rap": {"c": "fin", "v": ZERO}, "phi": none}
    pt, eta, phi, m = p["pt"], p["eta"], p["phi"], p["m"] * p["pt"]
    z = pt * math.sinh(eta)
    e = math.sqrt((pt * math.cosh(eta)) ** 2 + m * m)
    rap = math.asinh(z / math.sqrt(pt * pt + m * m))
    return [pt * math.cos(phi), pt * math.sin(phi), z, e], {
        "eta": fixed(eta, 10**8), "rap": fixed(rap, 10**8), "phi": fixed(phi, 10**8)}


def matrix(r):
    if not isinstance(r, np.ndarray) or r.ndim != 2 or r.dtype != np.dtype("<f8"):
        raise BadProjection("not a matrix of doubles")
    return [[fixed(v, 10**8) for v in row] for row in r.tolist()]


class Broken:
    """Has rapidities but no momenta."""
    eta = rapidity = np.zeros(3)


def run(c):
    rng = random.Random(c["s"])
    rows_a, a = zip(*map(build, c["a"])) if c["a"] else ((), ())
    rows_b, b = zip(*map(build, c["b"])) if c["b"] else ((), ())
    if rng.random() < 0.3:  # a selection of a larger set
        idx = list(range(len(rows_a)))
        pad = rng.randint(0, 3)
        both = gcl.MomentumArray(np.array(list(rows_a) + [[1.0, 2.0, 3.0, 9.0]] * pad, dtype="<f8").reshape(-1, 4))
        pa = both[np.array(idx, dtype=int)]
    else:
        pa = gcl.MomentumArray(np.array(rows_a, dtype="<f8").reshape(-1, 4))
    pb = gcl.MomentumArray(np.array(rows_b, dtype="<f8").reshape(-1, 4))
    was = pa.data.tobytes(), pb.data.tobytes()
    calls = []
    for call in c["calls"]:
        how, pseudo, threads = call["how"], call["pseudo"], call["threads"]
        kw = {} if call.get("default") and how != "refused" else {"threads": threads}
        nb.set_num_threads(c["around"])
        if how == "two":
            fn = lambda: pa.delta_R(pb, pseudo, **kw)
        elif how == "swap":
            fn = lambda: pb.delta_R(pa, pseudo=pseudo, **kw)
        elif how == "self":
            fn = lambda: pa.delta_R(pa, pseudo=pseudo, **kw)
        elif how == "copy":
            fn = lambda: pa.delta_R(pa.copy(), pseudo, **kw)
        elif how == "window":  # two stretches of one set, which may overlap
            size = rng.randint(0, len(a))
            lo = [rng.randint(0, len(a) - size) for _ in range(2)]
            cut = [pa[i:i + size] for i in lo]
            fn = lambda: cut[0].delta_R(cut[1], pseudo, **kw)
        elif how == "affinity":
            fn = lambda: gcl.matrix.delta_R_aff(pa)
        elif how == "weighted":
            power = call["exp"]
            fn = lambda: gcl.matrix.parton_hadron_distance(pa, pb, **({} if power is None else {"pt_exp": power}))
            p = -0.1 if power is None else power
            ws = [big(10**12) if p == 0 else big(round(q["pt"] ** p * 10**12)) if q["t"] == "gen" else ZERO for q in c["a"]]
        else:
            bad = call["bad"]
            if bad.startswith("threads"):
                fn = lambda: pa.delta_R(pb, pseudo, int(bad[7:]))
            elif bad == "broken":
                fn = lambda: pa.delta_R(Broken(), pseudo, threads)
            else:
                fn = lambda: pa.delta_R(None, pseudo, threads)
        r = out(fn, matrix, [])
        after = nb.get_num_threads()
        calls.append({"how": how, "pseudo": pseudo or how == "affinity", "r": r, "before": c["around"], "after": after})
        if how == "weighted":
            calls[-1]["ws"] = ws
            calls[-1]["vanish"] = p > 0
        elif how == "window":
            calls[-1]["size"] = size
            calls[-1]["lo"] = lo
    return {"k": "dist", "a": list(a), "b": list(b), "calls": calls,
            "same": (pa.data.tobytes(), pb.data.tobytes()) == was}
