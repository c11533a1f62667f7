"""Construction and projection of mask values."""
import numpy as np

import graphicle as gcl

from .proj import BadProjection, bools

UNSUPPORTED = {"list": [True, False], "int": 1, "none": None, "str": "ab"}


def build(node):
    """Real object for a mask value of the specification."""
    t = node["t"]
    if t == "m":
        return gcl.MaskArray(np.array(node["b"], dtype=bool))
    if t == "a":
        return np.array(node["b"], dtype=bool)
    if t == "x":
        return UNSUPPORTED[node.get("what", "list")]
    op = node["op"]
    style = node.get("style", 0)
    if style == 1:
        op = gcl.data.MaskAggOp(op)
    elif style == 2:
        op = op.upper()
    group = gcl.MaskGroup(
        {n: build(k) for n, k in zip(node["names"], node["kids"])}, agg_op=op
    )
    if style == 3:  # aggregation set afterwards
        group = gcl.MaskGroup(
            {n: build(k) for n, k in zip(node["names"], node["kids"])}
        )
        group.agg_op = op
    return group


def project(obj):
    """Mask value of a real object."""
    if isinstance(obj, gcl.MaskGroup):
        return {
            "t": "g", "op": obj.agg_op.value,
            "names": [str(n) for n in obj],
            "kids": [project(obj[n]) for n in obj],
        }
    if isinstance(obj, gcl.MaskArray):
        return {"t": "m", "b": bools(obj)}
    if isinstance(obj, np.ndarray):
        return {"t": "a", "b": bools(obj)}
    raise BadProjection(f"not a mask: {type(obj)}")


def strip(node):
    """Value without construction hints."""
    if node["t"] == "g":
        return {"t": "g", "op": node["op"], "names": node["names"],
                "kids": [strip(k) for k in node["kids"]]}
    if node["t"] == "x":
        return {"t": "x"}
    return {"t": node["t"], "b": node["b"]}


def same(obj, node):
    """Whether a real object still has the value it was built from."""
    if node["t"] == "x":
        return True
    return project(obj) == strip(node)


NAMES = ["t", "t~", "b", "W+", "tau+", "q:0", "q:1", "x y", "latent", "", "g"]


def rand_flat(rng, n, p=None):
    p = rng.choice([0.1, 0.5, 0.5, 0.9]) if p is None else p
    return {"t": "m", "b": [rng.random() < p for _ in range(n)]}


def rand_tree(rng, n, depth, ops=("or", "and"), min_kids=1, max_kids=4,
              names=None, latent=True):
    """Random group of masks over n particles; distinct names throughout."""
    pool = names if names is not None else [f"{x}{i}" for i in range(40) for x in NAMES if x != "latent"]
    if names is None:
        rng.shuffle(pool)
    kids, labels = [], []
    for _ in range(rng.randint(min_kids, max_kids)):
        if depth > 1 and rng.random() < 0.45:
            kids.append(rand_tree(rng, n, depth - 1, ops, min_kids, max_kids, pool, latent))
        else:
            kids.append(rand_flat(rng, n))
        labels.append(pool.pop())
    if latent and names is not None and rng.random() < 0.6:
        pos = rng.randint(0, len(kids))
        kids.insert(pos, rand_flat(rng, n))
        labels.insert(pos, "latent")
    return {"t": "g", "op": rng.choice(list(ops)), "names": labels, "kids": kids,
            "style": rng.randint(0, 3)}


def flat(node):
    """Bits of a defined mask value (used to make interesting cases)."""
    if node["t"] != "g":
        return list(node["b"])
    fold = all if node["op"] == "and" else any
    return [fold(col) for col in zip(*map(flat, node["kids"]))]
