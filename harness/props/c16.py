"""C16: colour singlet groupings."""
import numpy as np

import graphicle as gcl

from ..proj import out, text


def expand(rng, ps, extra):
    """Event rows around the leaf partons: masks, statuses and colours."""
    rows = [{"leaf": i, "status": rng.choice([23, -23]), "c": p["c"], "a": p["a"]}
            for i, p in enumerate(ps)]
    for _ in range(extra):
        rows.append({"leaf": rng.randrange(-1, len(ps)), "status": rng.choice([21, -22, 51, -71, 83, 62, 24]),
                     "c": rng.choice([0, 501, 777]), "a": rng.choice([0, 502, 777])})
    rng.shuffle(rows)
    return rows


def cases(rng, tier, generated):
    for g in generated:
        yield {"k": "singlets", "ps": g["ps"], "invert": rng.random() < 0.5,
               "rows": expand(rng, g["ps"], rng.choice([0, 2]))}
    total = 1200 if tier == "quick" else 20000
    for i in range(total):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10])
        lines = [0] + [500 + j for j in range(1, rng.choice([2, 3, 5, 9]))]
        ps = []
        for j in range(n):
            c, a = rng.choice(lines), rng.choice(lines)
            if rng.random() < 0.25:
                c = a = 0
            ps.append({"name": rng.choice(["b", "t~", "q", "g", "d"]) + f":{j}", "c": c, "a": a})
        # complete some lines into singlets
        if n >= 2 and rng.random() < 0.6:
            for _ in range(rng.randint(1, 2)):
                x, y = rng.sample(range(n), 2)
                ps[x].update(c=600 + x, a=0)
                ps[y].update(c=0, a=600 + x)
        if n >= 3 and rng.random() < 0.5:
            x, y, z = rng.sample(range(n), 3)
            ps[x].update(c=701, a=0)
            ps[y].update(c=702, a=701)
            ps[z].update(c=0, a=702)
        yield {"k": "singlets", "ps": ps, "invert": rng.random() < 0.5,
               "rows": expand(rng, ps, rng.choice([0, 1, 5, 12]) if n else 3)}
    for i in range(4 if tier == "quick" else 40):     # six to nine pairs
        n = rng.randint(6, 9)
        ps = [{"name": f"q:{j}", "c": 600 + j, "a": 0} for j in range(n)] + [{"name": f"q~:{j}", "c": 0, "a": 600 + j} for j in range(n)]
        rng.shuffle(ps)
        yield {"k": "singlets", "ps": ps, "invert": i % 2 > 0, "rows": expand(rng, ps, 3)}


def run(c):
    rows, ps = c["rows"], c["ps"]
    leaves = gcl.MaskGroup(
        {p["name"]: gcl.MaskArray(np.array([r["leaf"] == i for r in rows], dtype=bool)) for i, p in enumerate(ps)},
        agg_op="or")
    status = gcl.StatusArray(np.array([r["status"] for r in rows], dtype="<i2"))
    color = gcl.ColorArray(np.array([[r["c"], r["a"]] for r in rows], dtype="<i4").reshape(-1, 2))
    kept = status.data.copy(), color.data.copy(), leaves.copy()
    kw = {"invert": True} if c["invert"] else {}
    r = out(lambda: gcl.select.color_singlets(leaves, status, color, **kw),
            lambda v: [[text(n) for n in t] for t in v], [])
    same = bool(np.array_equal(kept[0], status.data) and np.array_equal(kept[1], color.data)
                and kept[2].equal_to(leaves, check_order=True))
    return {"k": "singlets", "ps": ps, "invert": c["invert"], "r": r, "same": same}
