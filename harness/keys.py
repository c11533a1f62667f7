"""Selection keys: description -> real key and the rows it means."""
import numpy as np

import graphicle as gcl

from .masks import build, flat, rand_tree, strip

STYLES = ["slice", "slice", "int", "ints", "list", "boolarr", "boollist", "mask", "group", "group", "npint"]


def random_key(rng, n, styles=STYLES):
    style = rng.choice(list(styles))
    if n == 0 and style in ("int", "npint"):
        style = "slice"
    if style == "slice":
        lim = [None] + list(range(-n - 1, n + 2))
        return {"style": style, "v": [rng.choice(lim), rng.choice(lim), rng.choice([None, 1, 2, -1, -2, 3])]}
    if style in ("int", "npint"):
        return {"style": style, "v": [rng.randrange(-n, n)]}
    if style in ("ints", "list"):
        m = rng.randint(1, n + 2) if n else 0
        v = [rng.randrange(-n, n) for _ in range(m)]
        if n and rng.random() < 0.3:
            v = list(range(n))
            rng.shuffle(v)
        return {"style": style if v else "ints", "v": v}
    if style == "group":
        tree = rand_tree(rng, n, rng.choice([1, 1, 2, 3]), max_kids=3)
        return {"style": style, "v": flat(tree) if n else [], "tree": tree}
    p = rng.choice([0.0, 0.3, 0.5, 0.8, 1.0])
    return {"style": style if n or style != "boollist" else "boolarr", "v": [rng.random() < p for _ in range(n)]}


def key_value(key, n):
    """Real key object, and the 0-based rows it selects in order."""
    style, v = key["style"], key["v"]
    if style == "slice":
        return slice(*v), list(range(n))[slice(*v)]
    if style == "int":
        return v[0], [v[0] % n]
    if style == "npint":
        return np.int64(v[0]), [v[0] % n]
    if style in ("ints", "list"):
        real = np.array(v, dtype=np.int64) if style == "ints" else list(v)
        return real, [i % n for i in v]
    idx = [i for i, x in enumerate(v) if x]
    if style == "boollist":
        return list(v), idx
    arr = np.array(v, dtype=bool)
    if style == "boolarr":
        return arr, idx
    if style == "mask":
        return gcl.MaskArray(arr), idx
    return build(key["tree"]), idx


def meaning(key):
    """The key as a value of the specification."""
    style, v = key["style"], key["v"]
    if style == "slice":
        return {"t": "slice", **{k: [] if x is None else [x] for k, x in zip("abs", v)}}
    if style in ("int", "npint", "ints", "list"):
        return {"t": "at", "v": v}
    return {"t": "mask", "m": strip(key["tree"]) if style == "group" else {"t": "m", "b": v}}
