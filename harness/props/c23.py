"""C23: events are ingested, serialised and displayed without loss."""
import html as htmllib
import re
import types

import numpy as np

import graphicle as gcl

from .. import cols as columns
from .. import composite
from ..composite import EVENT, KIND, SET, observe, tokens
from ..proj import BadProjection, integer, out

LHE = ["pdg", "pmu", "color", "helicity", "status"]


def cases(rng, tier, generated):
    for g in generated[:: 8 if tier == "quick" else 1]:
        data = composite.contents(rng, 3, g["present"])
        yield {"k": rng.choice(["ingest", "serial", "table"]), "kind": "event", "data": data, "how": "numpy",
               "styles": {}, "html": rng.random() < 0.5}
    total = 1500 if tier == "quick" else 40000
    for _ in range(total):
        k = rng.choice(["ingest", "ingest", "lhe", "serial", "table", "table"])
        kind = rng.choice(["set", "event", "event"])
        n = rng.choice([1, 1, 2, 3, 5, 12] + ([59, 60, 61, 62, 75, 130] if k == "table" else [40]))
        fields = EVENT if kind == "event" else SET
        present = composite.subset(rng, fields)
        c = {"k": k, "kind": kind}
        if k == "lhe":
            present = LHE
            c["kind"] = "set"
            c["attrs"] = rng.choice(["namespace", "slots", "property"])
        if k == "serial" and "weights" in present:
            present.remove("weights")
        if k == "ingest":
            c["how"] = rng.choice(["numpy", "event", "event"]) if kind == "event" else "numpy"
            c["masks"] = rng.random() < 0.5
            if c["how"] == "event" and "weights" in present:
                present.remove("weights")
        c["data"] = composite.contents(rng, n, present)
        if k in ("ingest", "lhe"):
            c["styles"] = {f: rng.choice(["plain", "struct", "list", "strided"]) for f in present}
        if k == "table":
            c["html"] = rng.random() < 0.4
        yield c
    for i in range(4 if tier == "quick" else 30):     # long records
        present = [f for f in EVENT if f != "weights"]
        data = composite.contents(rng, rng.choice([140, 270, 400]), present)
        if i % 2:
            yield {"k": "ingest", "kind": "event", "how": "numpy", "masks": True, "data": data, "styles": {f: "plain" for f in present}}
        else:
            yield {"k": "serial", "kind": "event", "data": data}


def source(f, rows, style):
    a = composite.array(f, rows)
    if style == "list" and f != "status":
        return [tuple(r) if len(r) > 1 else r[0] for r in rows]
    if style == "strided":
        big = np.zeros((2 * len(a),) + a.shape[1:], dtype=a.dtype)
        big[::2] = a
        return big[::2]
    if style == "struct" and a.ndim == 2:
        names = {"pmu": ["x", "y", "z", "e"], "color": ["color", "anticolor"], "edges": ["src", "dst"]}[f]
        rec = np.zeros(len(a), dtype=[(x, a.dtype) for x in names])
        for j, x in enumerate(names):
            rec[x] = a[:, j]
        return rec
    return a


def snap(src):
    return {f: columns.snapshot(v) for f, v in src.items()}


def holder(src, how):
    if how == "slots":
        cls = type("Rec", (), {"__slots__": tuple(src)})
        obj = cls()
        for f, v in src.items():
            setattr(obj, f, v)
        return obj
    if how == "property":
        return type("Rec", (), {f: property(lambda self, v=v: v) for f, v in src.items()})()
    return types.SimpleNamespace(**src)


def parse_plain(s):
    lines = s.split("\n")
    m = re.fullmatch(r"\[(\d+) particles \u00d7 (\d+) attributes\]", lines[-1])
    if not m or lines[-2] != "":
        raise BadProjection("footer")
    body = lines[:-2]
    heads = body[0].split() if body else []
    rows = []
    for line in body[1:]:
        parts = line.split()
        extra = len(parts) - len(heads)
        if extra > 0 and heads[0] == "name":
            parts = [" ".join(parts[: extra + 1])] + parts[extra + 1:]
        rows.append(parts)
    return {"heads": heads, "rows": rows, "particles": int(m[1]), "attributes": int(m[2])}


def parse_html(s):
    table, foot = s.rsplit("\n\n", 1)
    m = re.fullmatch(r"(\d+) particles \u00d7 (\d+) attributes", foot)
    if not m:
        raise BadProjection("footer")
    cell = lambda x: htmllib.unescape(x).strip()
    heads = [cell(x) for x in re.findall(r"<th(?:\s[^>]*)?>(.*?)</th>", table, re.S)]
    rows = []
    for tr in re.findall(r"<tr(?:\s[^>]*)?>(.*?)</tr>", table, re.S):
        tds = re.findall(r"<td(?:\s[^>]*)?>(.*?)</td>", tr, re.S)
        if tds:
            rows.append([cell(x) for x in tds])
    return {"heads": heads, "rows": rows, "particles": int(m[1]), "attributes": int(m[2])}


def seen(v):
    if isinstance(v, float):
        return f"{v:.2E}"
    return str(v)


def run(c):
    k, kind, data = c["k"], c["kind"], c["data"]
    fields = EVENT if kind == "event" else SET
    cols = tokens(data, fields)
    cls = gcl.Graphicle if kind == "event" else gcl.ParticleSet
    if k == "ingest":
        src = {f: source(f, r, c["styles"].get(f, "plain")) for f, r in data.items()}
        before = snap(src)
        if c["how"] == "numpy":
            got = observe(lambda: cls.from_numpy(**src), kind)
        else:
            attrs = dict(src)
            if c["masks"] and "final" in attrs:
                attrs["masks"] = {"final": attrs.pop("final"), "other": np.zeros(1, dtype=bool)}
            ev = types.SimpleNamespace(**attrs, count=7, signal=None)
            got = observe(lambda: cls.from_event(ev), kind)
        return {"k": k, "cols": cols, "got": got, "same": snap(src) == before}
    if k == "lhe":
        src = {f: source(f, r, c["styles"][f]) for f, r in data.items()}
        before = snap(src)
        got = observe(lambda: cls.from_lhe_event(holder(src, c["attrs"])), kind)
        return {"k": k, "cols": cols, "stat": [r[0] for r in data["status"]], "got": got,
                "same": snap(src) == before}
    obj = composite.make(data, kind)
    if k == "serial":
        ser = {"ok": True, "exc": "", "cols": {f: [] for f in fields}}
        names, back = [], None
        try:
            d = obj.serialize()
            names = sorted(d)
            for f in fields:
                if f == "weights":
                    continue
                v = d["adj" if f == "edges" else f]
                if not isinstance(v, tuple):
                    raise BadProjection("not a tuple")
                ser["cols"][f] = columns.rows_of(v, KIND.get(f, f))
            kw = dict(d)
            if kind == "event":
                kw["edges"] = kw.pop("adj")
            back = observe(lambda: cls.from_numpy(**kw), kind)
        except Exception as e:
            ser.update(ok=False, exc=f"{type(e).__name__}: {e}"[:80])
            back = observe(lambda: obj, kind)
        return {"k": k, "cols": cols, "ser": ser, "names": names,
                "want_names": sorted(SET + (["adj"] if kind == "event" else [])), "back": back}
    t = out(lambda: obj._repr_html_() if c["html"] else str(obj),
            parse_html if c["html"] else parse_plain,
            {"heads": [], "rows": [], "particles": 0, "attributes": 0})
    show = {f: [[seen(v) for v in r] for r in data.get(f, [])] for f in fields}
    return {"k": k, "fields": fields, "cols": show, "codes": [r[0] for r in data.get("pdg", [])], "t": t}
