"""C05: selecting particles keeps every column aligned."""
import numpy as np

from .. import composite
from ..composite import EVENT, SET, observe, tokens
from ..keys import key_value, meaning, random_key


def cases(rng, tier, generated):
    for g in generated:
        if not g["present"]:
            continue
        data = composite.contents(rng, 3, g["present"])
        a, b = [[i - 1 for i in p] for p in g["path"]]
        kind = "event" if "edges" in g["present"] or rng.random() < 0.5 else "set"
        style = lambda v: {"style": rng.choice(["ints", "list"]) if v else "ints", "v": v}
        yield {"k": "select", "kind": kind, "data": data, "key": style(a), "key2": style(b)}
    total = 2200 if tier == "quick" else 50000
    for _ in range(total):
        kind = rng.choice(["set", "event", "event"])
        fields = EVENT if kind == "event" else SET
        n = rng.choice([0, 1, 2, 3, 5, 9, 30, 70])
        present = composite.subset(rng, fields) if n else []
        if not present:
            n = 0
        data = composite.contents(rng, n, present)
        if rng.random() < 0.2:
            yield {"k": "copy", "kind": kind, "data": data}
            continue
        c = {"k": "select", "kind": kind, "data": data, "key": random_key(rng, n)}
        if rng.random() < 0.5:
            m = len(key_value(c["key"], n)[1])
            c["key2"] = random_key(rng, m)
        yield c
    for _ in range(4 if tier == "quick" else 40):     # long records
        kind = rng.choice(["set", "event", "event"])
        fields = EVENT if kind == "event" else SET
        n = rng.choice([140, 270, 400])
        data = composite.contents(rng, n, list(fields))
        yield {"k": "select", "kind": kind, "data": data, "key": random_key(rng, n)}


def scribble(obj, kind):
    """Changes every column of an object in place."""
    p = obj.particles if kind == "event" else obj
    for f in SET:
        col = getattr(p, f)
        if len(col):
            d = col.data
            if f == "final":
                d[...] = ~d
            elif d.dtype.names:
                for name in d.dtype.names:
                    d[name] += 7
            else:
                d += 7
    if kind == "event" and len(obj.adj):
        obj.adj.edges["src"] += 7
        if obj.adj.weights.size:
            obj.adj.weights[...] += 7


def run(c):
    kind, data = c["kind"], c["data"]
    fields = EVENT if kind == "event" else SET
    cols = tokens(data, fields)
    obj = composite.make(data, kind)
    n = max([len(r) for r in data.values()], default=0)
    if c["k"] == "copy":
        box = {}

        def go():
            box["b"] = obj.copy()
            return box["b"]

        got = observe(go, kind)
        src = observe(lambda: obj, kind)
        # changing the original must not change the copy, nor the reverse
        later = got
        if got["ok"]:
            scribble(obj, kind)
            later = observe(lambda: box["b"], kind)
            if later == got:
                back = composite.make(data, kind)
                other = back.copy()
                scribble(other, kind)
                later = observe(lambda: back, kind)
        return {"k": "copy", "cols": cols, "got": got, "src": src, "later": later}
    key, idx = key_value(c["key"], n)
    e = {"k": "select", "cols": cols, "key": meaning(c["key"])}
    first = observe(lambda: obj[key], kind)
    e["got"] = first
    if "key2" in c:
        m = len(idx)
        key2, idx2 = key_value(c["key2"], m)
        e["key2"] = meaning(c["key2"])
        e["got2"] = observe(lambda: obj[key][key2], kind)
        comp = np.array([idx[i] for i in idx2], dtype=np.int64)
        e["got3"] = observe(lambda: obj[comp], kind)
    e["src"] = observe(lambda: obj, kind)
    return e
