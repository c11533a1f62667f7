"""C04: columns hold exactly the values they were built from."""
import numpy as np

import graphicle as gcl

from .. import cols
from ..proj import BadProjection, out

KINDS = list(cols.CLASS)
READS = ["iter", "array", "serialize", "rebuild", "copy", "data", "index", "component", "length", "empty"]
INTS = ["i1", "u1", "<i2", ">i2", "<i4", ">i4", "<i8", ">i8", "u2"]
FLOATS = ["<f8", ">f8", "<f4", "f2"]
ROW_STYLES = ["list", "tuple", "tuples", "array", "array", "fortran", "strided", "reversed",
              "transposed", "columns", "readonly", "column", "elements", "setter", "wrapped"]
FLAT_STYLES = ["list", "tuple", "array", "strided", "reversed", "readonly", "setter", "range"]
REC_STYLES = ["array", "strided", "reversed", "padded", "backwards", "mixed", "recarray", "scalar", "setter", "readonly"]


def value(rng, kind, dtype):
    """A number of the type dtype which the column can hold."""
    base = dtype.lstrip("<>")
    if kind == "mask":
        if base == "?":
            return rng.random() < 0.5
        return rng.choice([0, 1, 1, 2, 7])
    if base[0] == "f":
        if kind == "pmu":
            v = rng.choice([0.0, -0.0, 1.0, rng.uniform(-1, 1), rng.gauss(0, 100), float("inf"),
                            float("nan"), 1e-300, 1e300, rng.randint(-9, 9) + 0.5])
        else:
            v = float(rng.randint(-2000, 2000))
        with np.errstate(all="ignore"):
            return float(np.dtype(base).type(v))
    info = np.iinfo(np.dtype(base))
    top = min(info.max, cols.LIMIT.get(kind, 2**50))
    low = max(info.min, -top)
    return rng.choice([0, 1, low, top, rng.randint(max(low, -30), min(top, 30)), rng.randint(low, top)])


def names_for(rng, kind):
    if kind not in cols.COMPONENTS:
        return ["value"]
    if rng.random() < 0.3:  # the names and order the column itself has
        return list(cols.COMPONENTS[kind])
    f = [rng.choice(cols.ALIASES[c]) for c in cols.COMPONENTS[kind]]
    rng.shuffle(f)
    return f


def reads_for(rng, n):
    return [{"how": rng.choice(READS), "i": rng.random()} for _ in range(rng.randint(2, 5))]


def cases(rng, tier, generated):
    for g in generated:
        kind, inp = g["kind"], g["inp"]
        if inp["form"] == "rows" and kind == "pdg" and len(inp["rows"]) > 1 and rng.random() < 0.5:
            kind = rng.choice(["pdg", "helicity", "status"])
        yield {"k": "build", "kind": kind, "inp": inp, "dtype": rng.choice(["<f8", "<i4", "<i2"]),
               "style": rng.choice({"flat": FLAT_STYLES[:3], "rows": ROW_STYLES[:4], "record": REC_STYLES[:3]}[inp["form"]]),
               "reads": reads_for(rng, 0)}
    total = 2500 if tier == "quick" else 60000
    for _ in range(total):
        kind = rng.choice(KINDS)
        w = cols.WIDTH[kind]
        n = rng.choice([0, 1, 1, 2, 2, 3, 4, 4, 5, 9, 20, 64])
        dtype = rng.choice(INTS + FLOATS * 2 + (["?"] * 4 if kind == "mask" else []))
        if rng.random() < 0.15:  # the type the column is kept in
            dtype = {"pmu": "<f8", "mask": "?", "helicity": "<i2", "status": "<i2"}.get(kind, "<i4")
        form = rng.choice(["flat", "rows", "rows", "record", "record"])
        if form == "flat":
            if w > 1:
                n = rng.choice([0, w, w, w, w - 1, w + 1, 2 * w, 3 * w, 1])
            inp = {"form": form, "cells": [value(rng, kind, dtype) for _ in range(n)]}
            style = rng.choice(FLAT_STYLES)
        else:
            width = w
            if form == "rows" and rng.random() < 0.2:
                width = rng.choice([1, 2, 3, 4, 5, 8])
                n = max(n, 1)
            inp = {"form": form, "rows": [[value(rng, kind, dtype) for _ in range(width)] for _ in range(n)]}
            style = rng.choice(ROW_STYLES)
            if form == "record":
                inp["names"] = names_for(rng, kind)
                style = rng.choice(REC_STYLES)
        yield {"k": "build", "kind": kind, "inp": inp, "dtype": dtype, "style": style, "reads": reads_for(rng, n)}


def spread(a, style):
    """The same array contents in another memory layout."""
    if style == "strided":
        big = np.zeros((3 * len(a) + 1,) + a.shape[1:], dtype=a.dtype)
        big[1::3] = a
        return big[1::3]
    if style == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    if style == "fortran":
        return np.asfortranarray(a)
    if style == "transposed":
        return np.ascontiguousarray(a.T).T
    if style == "columns" and a.ndim == 2:
        big = np.zeros((len(a), 2 * a.shape[1] + 1), dtype=a.dtype)
        big[:, 1::2] = a
        return big[:, 1::2]
    if style == "readonly":
        a = a.copy()
        a.flags.writeable = False
    return a


def source(c):
    inp, style, dt = c["inp"], c["style"], c["dtype"]
    kind = c["kind"]
    if inp["form"] == "flat":
        cells = inp["cells"]
        if style == "range":
            style = "list"
            if cells and all(isinstance(x, int) and not isinstance(x, bool) for x in cells):
                if cells == list(range(cells[0], cells[0] + len(cells))):
                    return range(cells[0], cells[0] + len(cells))
        if style == "list":
            return list(cells)
        if style == "tuple":
            return tuple(cells)
        return spread(np.array(cells, dtype=dt), style)
    rows = inp["rows"]
    if inp["form"] == "rows":
        w = len(rows[0]) if rows else cols.WIDTH[kind]
        if style == "list":
            return [list(r) for r in rows]
        if style == "tuple":
            return tuple(tuple(r) for r in rows)
        if style == "tuples":
            return [tuple(r) for r in rows]
        a = np.array(rows, dtype=dt).reshape(len(rows), w)
        if style == "column" and w == 1:
            return a
        if style == "elements" and w == cols.WIDTH[kind]:
            el = {"pmu": gcl.MomentumElement, "color": gcl.ColorElement, "edges": gcl.VertexPair}.get(kind)
            return [el(*r) for r in rows] if el else [r[0] for r in rows]
        if style == "wrapped" and w == cols.WIDTH[kind]:
            return cols.CLASS[kind](a)
        return spread(a, style)
    names = inp["names"]
    if style == "mixed":
        # the width of each field follows from its own contents
        kinds = []
        for j in range(len(names)):
            vals = [r[j] for r in rows]
            kinds.append("<f8" if any(isinstance(v, float) for v in vals) or not vals else "<i8")
        rec = np.dtype(list(zip(names, kinds)))
    elif style == "padded":
        step = np.dtype(dt).itemsize + 3
        rec = np.dtype({"names": names, "formats": [dt] * len(names),
                        "offsets": [2 + step * j for j in range(len(names))],
                        "itemsize": 5 + step * len(names)})
    elif style == "backwards":  # the last field lies first in memory
        step = np.dtype(dt).itemsize
        rec = np.dtype({"names": names, "formats": [dt] * len(names),
                        "offsets": [step * j for j in reversed(range(len(names)))]})
    else:
        rec = np.dtype([(n, dt) for n in names])
    a = np.zeros(len(rows), dtype=rec)
    for i, r in enumerate(rows):
        a[i] = tuple(r)
    if style == "scalar" and len(rows) == 1:
        return a.reshape(())
    return spread(a, style)


def build(cls, src, style):
    if style != "setter":
        return cls(src)
    col = cls()
    if hasattr(type(col), "data") and type(col).data.fset is not None:
        col.data = src
        return col
    return cls(src)


def read(col, kind, rd, n):
    how, i = rd["how"], rd["i"]
    cls = cols.CLASS[kind]

    def same_class(x):
        if type(x) is not cls:
            raise BadProjection("class")
        return cols.rows_of(x.data, kind)

    if how == "index":
        if n == 0:
            how = "length"
        else:
            i = int(i * n)
            neg = i - n if rd["i"] * 7 % 1 < 0.5 else i
            return {"how": how, "i": i + 1, "r": out(lambda: col[neg], same_class, [])}
    if how == "component" and cols.WIDTH[kind] == 1:
        how = "iter"
    if how == "component":
        j = int(i * cols.WIDTH[kind])
        name = cols.COMPONENTS[kind][j]

        def comp():
            if kind == "edges" or i * 5 % 1 < 0.3:
                return (col.edges if kind == "edges" else col.data)[name]
            return getattr(col, "energy" if name == "e" else name)

        def flat(x):
            if not isinstance(x, np.ndarray) or x.ndim != 1:
                raise BadProjection("component")
            return [[cols.token(v)] for v in x.tolist()]

        return {"how": how, "i": j + 1, "r": out(comp, flat, [])}
    fn, proj = {
        "iter": (lambda: list(col), lambda x: cols.rows_of(x, kind)),
        "array": (lambda: np.array(col), lambda x: cols.rows_of(x, kind)),
        "data": (lambda: col.data, lambda x: cols.rows_of(x, kind)),
        "serialize": (col.serialize, lambda x: cols.rows_of(x, kind)),
        "rebuild": (lambda: cls(col.serialize()), same_class),
        "copy": (col.copy, same_class),
        "length": (lambda: len(col), lambda x: [[cols.token(x)]]),
        "empty": (lambda: not col, lambda x: [[cols.token(x)]]),
    }[how]
    return {"how": how, "i": 0, "r": out(fn, proj, [])}


def run(c):
    kind = c["kind"]
    src = source(c)
    before = cols.snapshot(src)
    ok, exc, reads = True, "", []
    try:
        col = build(cols.CLASS[kind], src, c["style"])
    except Exception as e:
        ok, exc = False, type(e).__name__
    inp = dict(c["inp"])
    if inp["form"] == "flat":
        inp["cells"] = [cols.meant(kind, v) for v in inp["cells"]]
        n = len(inp["cells"]) // (1 if cols.WIDTH[kind] == 1 else cols.WIDTH[kind])
    else:
        inp["rows"] = [[cols.meant(kind, v) for v in r] for r in inp["rows"]]
        n = len(inp["rows"])
    if ok:
        reads = [read(col, kind, rd, n) for rd in c["reads"]]
    return {"k": "build", "kind": kind, "inp": inp, "ok": ok, "exc": exc, "reads": reads,
            "same": cols.snapshot(src) == before}
