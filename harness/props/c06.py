"""C06: particle queries select exactly the matching particles."""
import collections
import json
import pathlib
from decimal import Decimal

import numpy as np

import graphicle as gcl

from .. import composite
from ..proj import BadProjection, bools, exact, ints, out, raw, text

TABLE = json.load(open(pathlib.Path(__file__).parents[2] / "spec" / "pdg_table.json"))
NAMES = [n for n, c in collections.Counter(r["name"] for r in TABLE).items() if c == 1]
TEXTS = ["name", "quarks", "latex"]
CHARGES = ["charge", "isospin", "g_parity", "space_parity", "charge_parity"]
QUANT = ["mass", "width", "mass_bounds", "width_bounds"]


def cases(rng, tier, generated):
    for g in generated[:: 3 if tier == "quick" else 1]:
        yield {"k": "mask", "codes": g["codes"], "targets": g["targets"], "exclude": rng.random() < 0.5,
               "signed": rng.random() < 0.5, "form": "list", "how": "set"}
    # every code of the table, in one array and in random pieces
    allc = [r["code"] for r in TABLE]
    for prop in TEXTS + CHARGES + QUANT:
        for i in range(0, len(allc), 420):
            yield {"k": "prop", "prop": prop, "codes": allc[i: i + 420], "before": i // 420 % 3}
    for i in range(0, len(NAMES), 60):
        yield {"k": "name", "names": NAMES[i: i + 60], "form": "list", "proper": True}
    total = 1200 if tier == "quick" else 30000
    for _ in range(total):
        k = rng.choice(["mask", "mask", "status", "status", "hard", "prop", "prop", "name"])
        n = rng.choice([0, 1, 2, 3, 8, 30, 120])
        c = {"k": k, "before": rng.choice([0, 0, 1, 2])}
        if k == "mask":
            pool = rng.choice([[r["code"] for r in TABLE], [1, -1, 2, -2, 21, 22], composite.CODES, [211, -211, 11, -11, 2147483647, -2147483647, 0]])
            c["codes"] = [rng.choice(pool) for _ in range(n)]
            m = rng.choice([0, 1, 1, 2, 3, 12, 25])
            c["targets"] = [rng.choice(pool + [5, -7]) for _ in range(m)]
            if m and rng.random() < 0.3:  # far apart, and some of them present more than once
                c["targets"] = c["targets"][1:] + [rng.choice([1000010020, -2147483647])]
                c["codes"] += [rng.choice(c["codes"] + [9]) for _ in range(3)]
            c["form"] = rng.choice(["list", "tuple", "array", "column"] + (["scalar"] * 2 if m == 1 else []))
            c["exclude"], c["signed"] = rng.random() < 0.5, rng.random() < 0.5
            c["how"] = rng.choice(["set", "default"])
            if c["how"] == "default":
                c["exclude"], c["signed"] = True, False
        elif k in ("status", "hard"):
            c["st"] = [rng.choice([-24, -23, -22, -21, 21, 22, 23, 24, -12, 0, 1, 20, 25, -20, -25, 83, -91,
                                   rng.randint(-200, 200)]) for _ in range(n)]
            if k == "status":
                lo = rng.choice([0, 21, 22, 80, rng.randint(-30, 90)])
                c["lo"] = lo
                c["hi"] = rng.choice([[], [lo], [24], [90], [lo + rng.randint(-2, 9)]])
                c["signed"] = rng.random() < 0.5
        elif k == "prop":
            c["codes"] = composite.codes(rng, n)
            c["prop"] = rng.choice(TEXTS + CHARGES + QUANT)
        else:
            names = [rng.choice(NAMES) for _ in range(min(n, 8))]
            c["form"] = rng.choice(["list", "tuple", "generator", "scalar", "text"])
            c["proper"] = True
            if c["form"] == "scalar":
                names = [rng.choice(NAMES)]
            x = rng.random()
            if x < 0.2:
                names = names[:-1] + [rng.choice(["nothing", "", "E-", "e -", "U"])]
            elif x < 0.3:
                c["form"] = rng.choice(["number", "mixed", "none"])
                c["proper"] = False
            if c["form"] == "text":
                c["form"] = "list"
            c["names"] = names
        yield c


def sci(v):
    v = float(v)
    if v != v:
        return [0, 9999]
    if v == 0:
        return [0, 0]
    d = Decimal(v)
    sign, d = (-1 if d < 0 else 1), abs(d)
    e = d.adjusted()
    s = int((d.scaleb(-e) * 10**8).to_integral_value())
    if s == 10**9:
        s, e = 10**8, e + 1
    return [sign * s, e]


def twelfth(v):
    v = float(v)
    if v != v:
        return 9999
    t = round(v * 12)
    if abs(v * 12 - t) > 1e-6:
        raise BadProjection("not a twelfth")
    return int(t)


def prop_of(x, prop):
    if not isinstance(x, np.ndarray) or x.ndim != 1:
        raise BadProjection("not an array")
    if prop in TEXTS:
        if x.dtype.kind != "U":
            raise BadProjection("not text")
        return [str(v) for v in x.tolist()]
    if prop in CHARGES:
        return [twelfth(v) for v in x.tolist()]
    if prop in ("mass", "width"):
        return [[sci(v)] for v in x.tolist()]
    if x.dtype.names != (prop[:-7] + "lower", prop[:-7] + "upper"):
        raise BadProjection("bounds")
    return [[sci(v) for v in r] for r in x.tolist()]


def rehearse(c, ask):
    """Asks before, of equal columns; what is given out is written on."""
    for _ in range(c.get("before", 0)):
        try:
            x = ask()
        except Exception:
            continue
        x = getattr(x, "data", x)
        if isinstance(x, np.ndarray) and x.flags.writeable and c["before"] == 2:
            x[...] = np.zeros((), dtype=x.dtype)


def run(c):
    k = c["k"]
    if k in ("status", "hard"):
        col = gcl.StatusArray(np.array(c["st"], dtype="<i2"))
        before = col.data.tobytes()
        if k == "status":
            args = [c["lo"]] + c["hi"]
            rehearse(c, lambda: gcl.StatusArray(np.array(c["st"], dtype="<i2")).in_range(*args, sign_sensitive=c["signed"]))
            r = out(lambda: col.in_range(*args, sign_sensitive=c["signed"]), bools, [])
            return {"k": k, "st": c["st"], "lo": c["lo"], "hi": c["hi"], "signed": c["signed"], "r": r,
                    "same": col.data.tobytes() == before}
        g = gcl.Graphicle(particles=gcl.ParticleSet(status=col))
        return {"k": k, "st": c["st"], "names": out(lambda: list(col.hard_mask), lambda x: [text(v) for v in x], []),
                "masks": out(lambda: [g.hard_mask[n] for n in col.hard_mask], lambda x: [bools(m) for m in x], []),
                "any": out(lambda: g.hard_mask.data, bools, []), "same": col.data.tobytes() == before}
    if k == "name":
        names = c["names"]
        arg = {"list": lambda: list(names), "tuple": lambda: tuple(names), "generator": lambda: (x for x in names),
               "scalar": lambda: names[0], "number": lambda: 7, "none": lambda: None,
               "mixed": lambda: names + [3]}[c["form"]]()
        r = out(lambda: gcl.PdgArray.from_name(arg), ints, [])
        return {"k": k, "names": names, "proper": c["proper"], "r": r}
    col = gcl.PdgArray(np.array(c["codes"], dtype="<i4"))
    before = col.data.tobytes()
    if k == "prop":
        rehearse(c, lambda: getattr(gcl.PdgArray(np.array(c["codes"], dtype="<i4")), c["prop"]))
        r = out(lambda: getattr(col, c["prop"]), lambda x: prop_of(x, c["prop"]), [])
        return {"k": k, "codes": c["codes"], "prop": c["prop"], "r": r, "same": col.data.tobytes() == before}
    t = c["targets"]
    arg = {"list": lambda: list(t), "tuple": lambda: tuple(t), "array": lambda: np.array(t, dtype="<i4"),
           "column": lambda: gcl.PdgArray(np.array(t, dtype="<i4")), "scalar": lambda: t[0]}[c["form"]]()
    keep = repr(arg)
    kw = {} if c["how"] == "default" else {"blacklist": c["exclude"], "sign_sensitive": c["signed"]}
    rehearse(c, lambda: gcl.PdgArray(np.array(c["codes"], dtype="<i4")).mask(list(t), **kw))
    r = out(lambda: col.mask(arg, **kw), bools, [])
    return {"k": k, "codes": c["codes"], "targets": t, "exclude": c["exclude"], "signed": c["signed"], "r": r,
            "same": col.data.tobytes() == before and repr(arg) == keep}
