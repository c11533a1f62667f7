"""C01: mask algebra."""
import operator

import numpy as np

import graphicle as gcl

from ..masks import build, flat, rand_flat, rand_tree, same, strip
from ..proj import bools, boolean, num, out

OPS = {"and": operator.and_, "or": operator.or_, "eq": operator.eq, "ne": operator.ne}


def rand_mask(rng, n, graphicle=False):
    x = rng.random()
    if x < 0.35:
        return rand_flat(rng, n)
    if x < 0.5 and not graphicle:
        return {**rand_flat(rng, n), "t": "a"}
    ops = ("or", "and") if rng.random() < 0.85 else ("or", "and", "none")
    return rand_tree(rng, n, rng.randint(1, 3), ops)


def size(rng):
    return rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 17, 33, 64, 65, 100, 257])


def cases(rng, tier, generated):
    yield from generated
    total = 1500 if tier == "quick" else 30000
    for _ in range(total):
        x = rng.random()
        n = size(rng)
        if x < 0.45:
            a, b = rand_mask(rng, n), rand_mask(rng, n)
            y = rng.random()
            if y < 0.12:
                b = rand_mask(rng, rng.choice([n + 1, n + 2, n + 5, 2 * n + 1, 0, 1, 1, 1, max(n - 1, 0)]))
            elif y < 0.2:
                b = {"t": "x", "what": rng.choice(["list", "int", "none", "str"])}
            elif y < 0.3:
                b = a
            if a["t"] in "ax" and b["t"] in "ax":
                a = rand_mask(rng, n, graphicle=True)
            if rng.random() < 0.5 and b["t"] != "x":
                a, b = b, a
            yield {"k": "bin", "op": rng.choice(list(OPS)), "a": a, "b": b}
        elif x < 0.7:
            m = rand_mask(rng, n, graphicle=True)
            op = rng.choice(["not", "data", "array"])
            if m["t"] == "g":
                op = rng.choice(["not", "data", "orall", "andall", "array"])
            yield {"k": "un", "op": op, "m": m}
        elif x < 0.85:
            sparse = rng.random() < 0.6
            m = rand_tree(rng, n, rng.randint(1, 3), min_kids=0 if rng.random() < 0.1 else 1)
            if sparse:  # mostly disjoint members, sometimes one shared particle
                kids = rng.randint(1, 5)
                owner = [rng.randint(0, kids) for _ in range(n)]
                m["kids"] = [{"t": "m", "b": [o == i for o in owner]} for i in range(kids)]
                m["names"] = [f"k{i}" for i in range(kids)]
                if n and kids > 1 and rng.random() < 0.5:
                    p = rng.randrange(n)
                    for i in rng.sample(range(kids), 2):
                        m["kids"][i]["b"][p] = True
                if rng.random() < 0.3 and kids > 2:
                    sub = {"t": "g", "op": "or", "names": ["u", "v"], "kids": m["kids"][:2]}
                    m["kids"] = [sub] + m["kids"][2:]
                    m["names"] = ["s"] + m["names"][2:]
            m["op"] = rng.choice(["or", "and", "none"])
            yield {"k": "overlap", "m": m}
        else:
            n = min(n, 100)
            a, b = rand_mask(rng, n), rand_mask(rng, n)
            while not defined(a):
                a = rand_mask(rng, n)
            while not defined(b):
                b = rand_mask(rng, n)
            if rng.random() < 0.3:
                b = {"t": "m", "b": [x and rng.random() < 0.8 for x in flat(a)]}
            yield {"k": "jaccard", "a": a, "b": b, "weighted": rng.random() < 0.5,
                   "w": [rng.choice([0, 1, 1, 2, 3, 9]) for _ in range(n)],
                   "scale": rng.choice([0, 0, 4, -1, -3, -7, -12, -30, -300, 60])}


def defined(node):
    if node["t"] == "g":
        return node["op"] != "none" and all(map(defined, node["kids"]))
    return True


def run(c):
    if c["k"] == "bin":
        a, b = build(c["a"]), build(c["b"])
        r = out(lambda: OPS[c["op"]](a, b), bools, [])
        return {"k": "bin", "op": c["op"], "a": strip(c["a"]), "b": strip(c["b"]),
                "r": r, "same": same(a, c["a"]) and same(b, c["b"])}
    if c["k"] == "un":
        m = build(c["m"])
        fn = {
            "not": lambda: ~m,
            "data": lambda: m.data,
            "array": lambda: np.asarray(m),
            "orall": lambda: m.bitwise_or(),
            "andall": lambda: m.bitwise_and(),
        }[c["op"]]
        r = out(fn, bools, [])
        return {"k": "un", "op": c["op"], "m": strip(c["m"]), "r": r,
                "same": same(m, c["m"])}
    if c["k"] == "overlap":
        m = build(c["m"])
        r = out(lambda: gcl.select.any_overlap(m), boolean, False)
        return {"k": "overlap", "m": strip(c["m"]), "r": r, "same": same(m, c["m"])}
    a, b = build(c["a"]), build(c["b"])
    w = np.array(c["w"], dtype=float) * 2.0 ** c.get("scale", 0)
    fn = gcl.calculate.jaccard_distance
    r = out(lambda: fn(a, b, w) if c["weighted"] else fn(a, b),
            lambda v: num(v, 1_000_000), {"c": "none", "n": 0})
    return {"k": "jaccard", "a": strip(c["a"]), "b": strip(c["b"]), "w": c["w"],
            "weighted": c["weighted"], "r": r}
