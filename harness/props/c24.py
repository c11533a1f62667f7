"""C24: arithmetic and comparison on columns act element by element."""
import operator

import numpy as np

import graphicle as gcl

from .. import cols
from ..proj import BadProjection, exact, out

KINDS = list(cols.CLASS)
BIN = ["add", "subtract", "multiply", "true_divide", "floor_divide", "remainder", "maximum", "minimum"]
BOOL = ["add", "maximum", "logical_or", "bitwise_or", "multiply", "minimum", "logical_and",
        "bitwise_and", "logical_xor", "bitwise_xor"]
CMP = ["less", "greater", "less_equal", "greater_equal"]
UN = ["negative", "absolute", "sign", "square", "positive"]
SYMBOL = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul,
          "true_divide": operator.truediv, "floor_divide": operator.floordiv, "remainder": operator.mod,
          "less": operator.lt, "greater": operator.gt, "less_equal": operator.le,
          "greater_equal": operator.ge}
INPLACE = {"add": operator.iadd, "subtract": operator.isub, "multiply": operator.imul}
NAN = 99999
HALF = 80000  # added to a cell: a half more than what is left
WIDE = 70000  # added to a cell: beyond the type of the column
SIMILAR = {1: ["pdg", "helicity", "status"]}
WRONG = ["text", "none", "dict", "object", "shape", "set", "textlist"]


def cells(rng, kind, n, w=None, lo=-60, hi=60):
    w = cols.WIDTH[kind] if w is None else w
    if kind == "mask":
        lo, hi = 0, 1
    return [[rng.randint(lo, hi) for _ in range(w)] for _ in range(n)]


def cases(rng, tier, generated):
    for g in generated:
        kind, rows, other = g["kind"], g["rows"], g["other"]
        if kind == "pdg":
            kind = rng.choice(["pdg", "helicity", "status"])
        if kind == "color":
            kind = rng.choice(["color", "edges"])
        op = rng.choice(BOOL if kind == "mask" else ["add", "subtract", "multiply", "maximum"])
        o = {"form": "rows", "rows": other, "bool": kind == "mask", "float": False, "as": rng.choice(["array", "column"])}
        yield {"k": "bin", "kind": kind, "op": op, "rows": rows, "side": rng.choice(["left", "right"]),
               "symbol": False, "other": o}
        yield {"k": "eq", "kind": kind, "rows": rows, "other": {"form": "column", "rows": other, "of": kind}}
    for i in range(2 if tier == "quick" else 12):
        n = 4096 + rng.randint(1, 900)
        rows = [[rng.randint(0, 1)] for _ in range(n)]
        near = [r if j < n - 500 and i % 2 or rng.random() < 0.95 else [1 - r[0]] for j, r in enumerate(rows)]
        kind = rng.choice(["pdg", "mask", "helicity"])
        yield {"k": "eq", "kind": kind, "rows": rows, "other": {"form": "column", "rows": near, "of": kind}}
        yield {"k": "bin", "kind": "pdg", "op": "add", "rows": rows, "side": "left", "symbol": True,
               "other": {"form": "rows", "rows": near, "bool": False, "float": False, "as": "array"}}
    total = 2600 if tier == "quick" else 60000
    for _ in range(total):
        k = rng.choice(["bin"] * 4 + ["un", "cmp", "red", "red", "acc", "eq", "eq", "eq", "inplace", "refuse",
                        "pair", "at", "seg"])
        kind = rng.choice(KINDS)
        w = cols.WIDTH[kind]
        n = rng.choice([1, 1, 2, 3, 4, 4, 5, 8, 20])
        c = {"k": k, "kind": kind, "rows": cells(rng, kind, n)}
        if k in ("bin", "inplace"):
            boolean = kind == "mask" and (k == "inplace" or rng.random() < 0.6)
            c["op"] = rng.choice(BOOL if boolean else BIN)
            c["side"] = rng.choice(["left", "left", "right"])
            if k == "inplace":
                c["side"] = "left"
                c["op"] = rng.choice(["add", "multiply"] if boolean else ["add", "subtract", "multiply"])
                c["how"] = rng.choice(["symbol", "out"])
            c["symbol"] = rng.random() < 0.5
            form = rng.choice(["scalar", "rows", "rows"] + (["row", "col"] if w > 1 else []))
            shape = {"scalar": (1, 1), "rows": (n, w), "row": (1, w), "col": (n, 1)}[form]
            vals = cells(rng, kind if boolean else "x", shape[0], shape[1])
            if c["op"] in ("true_divide", "floor_divide", "remainder"):
                pick = [1, 2, 4] + ([-2, -4] if c["op"] == "true_divide" else [3])
                den = [[rng.choice(pick) for _ in r] for r in (vals if c["side"] == "left" else c["rows"])]
                if c["side"] == "left":
                    vals = den
                elif kind == "mask":
                    c["op"] = "subtract" if not boolean else "add"
                else:
                    c["rows"] = den
            c["other"] = {"form": form, "rows": vals, "bool": boolean,
                          "float": (not boolean and k != "inplace" and rng.random() < 0.2) and kind != "mask",
                          "as": rng.choice({"scalar": ["py", "np"], "rows": ["array", "array", "list", "column"],
                                            "row": ["array", "list"], "col": ["array"]}[form])}
            o = c["other"]
            if o["float"] or (kind == "mask" and not boolean):
                o["as"] = {"column": "array"}.get(o["as"], o["as"])
        elif k == "un":
            c["op"] = rng.choice(UN)
            if kind == "mask" or (w == 1 and rng.random() < 0.2):
                c["op"] = rng.choice(["logical_not", "invert"]) if kind == "mask" else "logical_not"
            c["symbol"] = rng.random() < 0.5
        elif k == "cmp":
            if w > 1:
                c["kind"] = rng.choice(["pdg", "helicity", "status"])
                c["rows"] = cells(rng, c["kind"], n, 1, -4, 4)
            c["op"] = rng.choice(CMP)
            c["side"] = rng.choice(["left", "right"])
            c["symbol"] = rng.random() < 0.5
            form = rng.choice(["scalar", "rows"])
            c["other"] = {"form": form, "rows": cells(rng, c["kind"], 1 if form == "scalar" else n, 1, -4, 4),
                          "bool": c["kind"] == "mask", "float": False,
                          "as": rng.choice(["py", "np"] if form == "scalar" else ["array", "list", "column"])}
        elif k in ("red", "acc"):
            c["op"] = rng.choice(["add", "maximum", "minimum"])
            if k == "red":
                c["axis"] = rng.choice(["none", "down"] + (["along", "along"] if w > 1 else []))
                c["how"] = rng.choice(["ufunc", "function"])
                c["neg"] = rng.random() < 0.5
        elif k == "eq":
            rows = cells(rng, kind, n, None, 0, 2)
            c["rows"] = rows
            if kind == "pmu" and rng.random() < 0.3:
                rows[rng.randrange(n)][rng.randrange(4)] = NAN
            form = rng.choice(["column", "column", "records" if w > 1 else "list",
                               "record" if w > 1 else "scalar", "record" if w > 1 else "list", "short", "foreign"])
            near = [list(r) for r in rows]
            for r in near:
                if rng.random() < 0.5:
                    r[rng.randrange(w)] = rng.randint(0, 2) if kind != "mask" else rng.randint(0, 1)
            o = {"form": form, "rows": near, "of": kind}
            if form == "column" and w == 1 and kind != "mask":
                o["of"] = rng.choice(SIMILAR[1])
            if form == "list":
                o["as"] = rng.choice(["array", "list", "tuple"] if kind != "mask" else ["array"])
                if kind in ("pdg", "helicity", "status") and rng.random() < 0.6:
                    o["as"] = rng.choice(["wide", "fraction", "unsigned", "list"])
                    for r in near:
                        if rng.random() < 0.4:
                            r[0] += {"fraction": HALF, "list": 0}.get(o["as"], WIDE)
            if form in ("record", "scalar"):
                o["rows"] = [rng.choice(near + rows)]
                o["as"] = rng.choice(["tuple", "list", "element"])
                if form == "scalar" and kind == "mask":
                    o["form"], o["rows"], o["as"] = "list", near, "array"
                elif form == "record" and kind != "pmu" and rng.random() < 0.2:
                    o["as"] = rng.choice(["tuple", "list"])
                    o["rows"] = [[v + rng.choice([0, HALF]) for v in o["rows"][0]]]
                elif form == "record" and rng.random() < 0.25:
                    o["rows"] = [o["rows"][0] + [0]] if rng.random() < 0.5 else [o["rows"][0][:-1]]
                    o["as"] = "tuple"
            if form == "short":
                o["form"] = "column"
                o["rows"] = near + near[:1] if rng.random() < 0.5 or n < 3 else near[:-1]
                if n == 1:  # one row is compared with every row
                    o["rows"] = near
            if form == "foreign":
                if w == 1:
                    o["form"] = "column"
                else:
                    o["of"] = rng.choice([x for x in KINDS if x != kind])
                    o["rows"] = cells(rng, o["of"], n)
            c["other"] = o
        elif k == "pair":
            form = rng.choice(["scalar", "rows"] + (["row", "col"] if w > 1 else []))
            shape = {"scalar": (1, 1), "rows": (n, w), "row": (1, w), "col": (n, 1)}[form]
            half = rng.random() < 0.4
            den = [[rng.choice([1, 3, 5, 7] if half else [1, 2, 3, 4, 9]) for _ in range(shape[1])] for _ in range(shape[0])]
            c["side"] = "left" if half or kind == "mask" or form != "rows" else rng.choice(["left", "right"])
            if c["side"] == "right":
                den, c["rows"] = c["rows"], [[abs(v) + 1 for v in r] for r in den]
            c["half"] = half
            c["symbol"] = rng.random() < 0.5
            c["other"] = {"form": form, "rows": den, "bool": False, "float": half or kind == "pmu",
                          "as": "py" if form == "scalar" else "array"}
        elif k in ("at", "seg"):
            c["op"] = rng.choice(["add", "maximum", "minimum"])
            if k == "seg":
                c["at"] = sorted(rng.sample(range(n), rng.randint(1, n)))
            else:
                c["at"] = [rng.randrange(n) for _ in range(rng.randint(1, 6))]
                form = rng.choice(["scalar", "rows"])
                vals = cells(rng, kind, *((1, 1) if form == "scalar" else (len(c["at"]), w)))
                c["other"] = {"form": form, "rows": vals, "bool": kind == "mask", "float": kind == "pmu",
                              "as": "py" if form == "scalar" else rng.choice(["array", "list"])}
        elif k == "refuse":
            c["wrong"] = rng.choice(WRONG)
            c["op"] = rng.choice(["add", "subtract", "multiply", "maximum"])
            if kind == "mask" or n == 1:
                c["kind"] = "pdg"
                c["rows"] = cells(rng, "pdg", n + 1)
            c["symbol"] = rng.random() < 0.5
        yield c


def dtype(kind):
    return {"pmu": "<f8", "mask": bool, "helicity": "<i2", "status": "<i2"}.get(kind, "<i4")


def plain(rows, kind):
    a = np.array(rows, dtype=float if kind == "pmu" else "<i8").reshape(len(rows), -1)
    if kind == "pmu":
        a[a == NAN] = np.nan
    a = a.astype(dtype(kind))
    return a.reshape(-1) if cols.WIDTH[kind] == 1 else a


def column(rows, kind):
    return cols.CLASS[kind](plain(rows, kind))


def operand(o, kind):
    rows = o["rows"]
    if o["as"] == "column":
        return column(rows, kind)
    a = np.array(rows)
    if o["bool"]:
        a = a.astype(bool)
    elif o["float"]:
        a = a.astype(float)
    elif kind == "pmu" and o["as"] != "py":
        a = a.astype(float)
    else:
        a = a.astype(dtype(kind) if kind != "mask" else "<i4")
    if o["form"] == "scalar":
        v = a[0, 0]
        return v.item() if o["as"] == "py" or o["bool"] else v  # numpy booleans are refused
    if o["form"] == "row" or (o["form"] == "rows" and cols.WIDTH[kind] == 1):
        a = a.reshape(-1)
    return a.tolist() if o["as"] == "list" else a


def quarters(v):
    if isinstance(v, (bool, np.bool_)):
        return 4 * int(v)
    return exact(v, 4)


def grid(a):
    a = np.asarray(a)
    if a.dtype.names is not None:
        return [[quarters(x) for x in r] for r in a.tolist()]
    if a.ndim == 1:
        a = a.reshape(-1, 1)
    if a.ndim != 2:
        raise BadProjection("shape")
    return [[quarters(x) for x in r] for r in a.tolist()]


def answer(fn, kind):
    def proj(x):
        if isinstance(x, gcl.MaskArray):
            return ("mask", grid(x.data))
        if type(x) is cols.CLASS[kind]:
            if kind == "edges" and x.edges.dtype.names != ("src", "dst"):
                raise BadProjection("dtype")
            if np.asarray(x.data).dtype != np.asarray(cols.CLASS[kind]().data).dtype:
                raise BadProjection("dtype")
            return ("column", grid(x.data))
        if isinstance(x, np.ndarray) and x.ndim:
            return ("plain", grid(x))
        if isinstance(x, (np.generic, int, float)) or (isinstance(x, np.ndarray) and x.ndim == 0):
            return ("scalar", [[quarters(x.item() if hasattr(x, "item") else x)]])
        raise BadProjection(f"{type(x)}")

    r = out(fn, proj, ("", []))
    return {"ok": r["ok"], "exc": r["exc"], "type": r["v"][0], "v": r["v"][1]}


def eq_operand(o, kind):
    rows, form = o["rows"], o["form"]
    if form in ("column", "foreign"):
        return column(rows, o["of"])
    if form == "records":
        return column(rows, kind).data.copy()
    if form == "list" and o["as"] in ("wide", "unsigned", "fraction"):
        over = 65536 if dtype(kind) == "<i2" else 2**32
        v = [r[0] - HALF + 0.5 if r[0] >= HALF - 9 else r[0] - WIDE + over if r[0] >= WIDE - 9 else r[0] for r in rows]
        return np.array(v, dtype={"wide": "<i8", "unsigned": "<u8", "fraction": "<f8"}[o["as"]])
    if form == "list":
        a = plain(rows, kind)
        return a if o["as"] == "array" else tuple(a.tolist()) if o["as"] == "tuple" else a.tolist()
    conv = (lambda v: float("nan") if v == NAN else float(v)) if kind == "pmu" else (
        lambda v: v - HALF + 0.5 if v >= HALF - 9 else int(v))
    vals = [conv(v) for v in rows[0]]
    if form == "scalar":
        return vals[0]
    el = {"pmu": gcl.MomentumElement, "color": gcl.ColorElement, "edges": gcl.VertexPair}[kind]
    if o["as"] == "element" and len(vals) == cols.WIDTH[kind]:
        return el(*vals)
    return vals if o["as"] == "list" else tuple(vals)


def contents(x):
    if isinstance(x, np.ndarray):
        return (x.dtype.str, x.shape, x.tobytes())
    if hasattr(x, "serialize"):
        return repr(x.serialize())
    return repr(x)


def run(c):
    k, kind, rows = c["k"], c["kind"], c["rows"]
    col = column(rows, kind)
    if k in ("bin", "cmp"):
        o = operand(c["other"], kind)
        fn = SYMBOL[c["op"]] if c["symbol"] and c["op"] in SYMBOL and not (
            isinstance(o, np.generic)) else getattr(np, c["op"])
        before = contents(col), contents(o)
        args = (col, o) if c["side"] == "left" else (o, col)
        r = answer(lambda: fn(*args), kind)
        other = {f: c["other"][f] for f in ("form", "rows", "bool", "float")}
        return {"k": k, "kind": kind, "op": c["op"], "rows": rows, "side": c["side"], "other": other,
                "r": r, "same": (contents(col), contents(o)) == before}
    if k == "inplace":
        o = operand(c["other"], kind)
        before = contents(o)
        keep = col

        def go():
            if c["how"] == "symbol" and c["op"] in INPLACE:
                res = INPLACE[c["op"]](col, o)
            else:
                res = getattr(np, c["op"])(col, o, out=col)
            go.self = True
            return res

        r = answer(go, kind)
        # the target itself must hold the result
        held = answer(lambda: keep, kind)
        same_self = c["how"] == "symbol" or held["v"] == r["v"]
        other = {f: c["other"][f] for f in ("form", "rows", "bool", "float")}
        return {"k": k, "kind": kind, "op": c["op"], "rows": rows, "side": "left", "other": other,
                "r": r, "self": same_self, "same": contents(o) == before}
    before = contents(col)
    if k == "un":
        sym = {"negative": operator.neg, "absolute": operator.abs, "positive": operator.pos,
               "invert": operator.invert}.get(c["op"]) if c["symbol"] else None
        r = answer(lambda: (sym or getattr(np, c["op"]))(col), kind)
        return {"k": k, "kind": kind, "op": c["op"], "rows": rows, "r": r, "same": contents(col) == before}
    if k == "red":
        axis = {"none": None, "down": 0, "along": -1 if c["neg"] else 1}[c["axis"]]
        if c["how"] == "function":
            f = {"add": np.sum, "maximum": np.max, "minimum": np.min}[c["op"]]
            r = answer(lambda: f(col, axis=axis), kind)
        else:
            r = answer(lambda: getattr(np, c["op"]).reduce(col, axis=axis), kind)
        return {"k": k, "kind": kind, "op": c["op"], "rows": rows, "axis": c["axis"], "r": r,
                "same": contents(col) == before}
    if k == "pair":
        o = operand(c["other"], kind)
        o = o / 2 if c["half"] else o
        b2 = contents(o)
        fn = divmod if c["symbol"] else np.divmod
        args = (col, o) if c["side"] == "left" else (o, col)
        quo = answer(lambda: fn(*args)[0], kind)
        rem = answer(lambda: fn(*args)[1], kind)
        return {"k": k, "kind": kind, "rows": rows, "side": c["side"], "half": c["half"],
                "other": {f: c["other"][f] for f in ("form", "rows", "float")}, "quo": quo, "rem": rem,
                "same": contents(col) == before and contents(o) == b2}
    if k == "at":
        o = operand(c["other"], kind)

        def go():
            if getattr(np, c["op"]).at(col, c["at"], o) is not None:
                raise BadProjection("answered")
            return col

        return {"k": k, "kind": kind, "op": c["op"], "rows": rows, "at": c["at"], "r": answer(go, kind),
                "other": {f: c["other"][f] for f in ("form", "rows")}}
    if k == "seg":
        r = answer(lambda: getattr(np, c["op"]).reduceat(col, c["at"]), kind)
        return {"k": k, "kind": kind, "op": c["op"], "rows": rows, "at": c["at"], "r": r,
                "same": contents(col) == before}
    if k == "acc":
        r = answer(lambda: getattr(np, c["op"]).accumulate(col, axis=0), kind)
        return {"k": k, "kind": kind, "op": c["op"], "rows": rows, "r": r, "same": contents(col) == before}
    if k == "eq":
        o = eq_operand(c["other"], kind)
        b2 = contents(o)
        eq = answer(lambda: col == o, kind)
        ne = answer(lambda: col != o, kind)
        return {"k": k, "kind": kind, "rows": rows, "other": {"form": c["other"]["form"], "rows": c["other"]["rows"]},
                "eq": eq, "ne": ne, "same": contents(col) == before and contents(o) == b2}
    n = len(rows)
    w = cols.WIDTH[kind]
    wrong = {"text": "a", "none": None, "dict": {"a": 1}, "object": object(), "set": {1, 2},
             "textlist": ["a"] * n,
             "shape": np.ones(n + 1, dtype=int) if w == 1 else np.ones((n + 1, w), dtype=int)}[c["wrong"]]
    fn = SYMBOL[c["op"]] if c["symbol"] and c["op"] in SYMBOL else getattr(np, c["op"])
    r = answer(lambda: fn(col, wrong), kind)
    return {"k": k, "kind": kind, "rows": rows, "r": r, "same": contents(col) == before}
