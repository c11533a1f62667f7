"""C02: mask groups as trees."""
import copy

import numpy as np

import graphicle as gcl

from ..masks import build, project, rand_flat, rand_tree, same, strip
from ..proj import boolean, out

EMPTY = {"t": "g", "op": "and", "names": [], "kids": []}


def proj_or_empty(fn):
    return out(fn, project, EMPTY)


def names_in(node):
    if node["t"] != "g":
        return []
    return node["names"] + [n for k in node["kids"] for n in names_in(k)]


def rename(rng, m):
    """Changes one thing about a tree (a copy of it)."""
    m = copy.deepcopy(m)
    groups = []

    def walk(g):
        groups.append(g)
        for k in g["kids"]:
            if k["t"] == "g":
                walk(k)

    walk(m)
    g = rng.choice(groups)
    x = rng.random()
    if not g["kids"]:
        g["names"].append("new")
        g["kids"].append({"t": "m", "b": []})
        return m
    i = rng.randrange(len(g["kids"]))
    if x < 0.25:
        leaf = g["kids"][i]
        while leaf["t"] == "g" and leaf["kids"]:
            leaf = rng.choice(leaf["kids"])
        if leaf["t"] == "m" and leaf["b"]:
            p = rng.randrange(len(leaf["b"]))
            leaf["b"][p] = not leaf["b"][p]
    elif x < 0.4:
        g["names"][i] = g["names"][i] + "'"
    elif x < 0.7 and len(g["kids"]) > 1:
        j = rng.randrange(len(g["kids"]))
        for key in ("names", "kids"):
            g[key][i], g[key][j] = g[key][j], g[key][i]
    elif x < 0.78:
        g["kids"][i], g["kids"][-1] = g["kids"][-1], g["kids"][i]
    elif x < 0.86:
        g["names"].pop(i)
        g["kids"].pop(i)
    elif x < 0.93:
        kid = g["kids"][i]
        g["kids"][i] = {"t": "g", "op": "or", "names": ["w"], "kids": [kid]}
    else:
        g["op"] = "or" if g["op"] == "and" else "and"
    return m


def tree(rng, n, **kw):
    return rand_tree(rng, n, rng.choice([1, 2, 2, 3, 4]), kw.pop("ops", ("or", "and", "or", "and", "none")), **kw)


def cases(rng, tier, generated):
    yield from generated
    total = 1600 if tier == "quick" else 30000
    for i in range(total):
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 30, 70])
        kind = rng.choice(["pick", "rows", "rows", "copy", "drop", "drop", "flat", "flat", "serial",
                           "equal", "equal", "mut", "iter", "struct"])
        if kind == "pick":
            m = tree(rng, n)
            names = rng.sample(m["names"], rng.randint(0, len(m["names"])))
            if names and rng.random() < 0.1:
                names.append(rng.choice(names))
            if rng.random() < 0.1:
                names.append("absent")
            yield {"k": kind, "m": m, "names": names}
        elif kind == "rows":
            m = tree(rng, n)
            style = rng.choice(["slice", "mask", "maskarray", "group", "ints", "int", "boolarr"])
            if style == "slice":
                lim = [None] + list(range(-n - 1, n + 2))
                key = [rng.choice(lim), rng.choice(lim), rng.choice([None, 1, 2, -1, -2, 3])]
            elif style in ("ints", "int"):
                if n == 0:
                    continue
                key = [rng.randrange(-n, n) for _ in range(1 if style == "int" else rng.randint(1, n + 2))]
            else:
                key = [rng.random() < 0.5 for _ in range(n)]
            yield {"k": kind, "m": m, "style": style, "key": key}
        elif kind in ("copy", "serial", "iter", "struct"):
            m = tree(rng, n, min_kids=0 if rng.random() < 0.1 and kind != "struct" else 1)
            if kind == "struct":
                m = {"t": "g", "op": "and", "names": [f"n{i}" for i in range(rng.randint(1, 4))]}
                m["kids"] = [rand_flat(rng, n) for _ in m["names"]]
                rng.shuffle(m["names"])
            yield {"k": kind, "m": m, "probe": rng.choice(["latent", "absent", *names_in(m)])}
        elif kind == "drop":
            m = tree(rng, n)
            key = "latent" if rng.random() < 0.5 else rng.choice(names_in(m) + ["absent"])
            default = key == "latent" and rng.random() < 0.5
            yield {"k": kind, "m": m, "key": key, "inplace": rng.random() < 0.4, "default": default}
        elif kind == "flat":
            how = rng.choice(["rise", "agg", "leaves", "leaf_masks"])
            ops = ("or", "and") if how in ("rise", "agg") or rng.random() < 0.7 else ("or", "and", "none")
            m = tree(rng, n, ops=ops)
            if rng.random() < 0.2:
                m["op"] = "none"
            yield {"k": kind, "m": m, "how": how, "default": how == "rise" and rng.random() < 0.5}
        elif kind == "equal":
            a = tree(rng, n)
            x = rng.random()
            b = copy.deepcopy(a)
            for _ in range(rng.choice([0, 0, 1, 1, 1, 2])):
                b = rename(rng, b)
            if x < 0.05:
                b = tree(rng, n)
            elif x < 0.25:
                b = shuffled(rng, copy.deepcopy(a))
            if rng.random() < 0.5:
                a, b = b, a
            yield {"k": kind, "a": a, "b": b, "order": rng.random() < 0.5, "default": rng.random() < 0.3}
        else:
            m = tree(rng, n, min_kids=0)
            steps = []
            for _ in range(rng.randint(1, 10)):
                op = rng.choice(["set", "set", "set", "del", "pop", "aggop", "drop"])
                name = rng.choice((names_in(m) or ["z"]) + ["latent", "new1", "new2"])
                if op == "aggop":
                    name = rng.choice(["or", "and", "none"])
                val = rand_flat(rng, n) if rng.random() < 0.7 else tree(rng, n)
                if op == "set" and rng.random() < 0.3:
                    val = {**rand_flat(rng, n), "t": "a"}
                steps.append({"op": op, "name": name, "m": val})
            yield {"k": kind, "m": m, "steps": steps}


def shuffled(rng, m):
    """The same tree with the labels of one random group reordered."""
    groups, todo = [], [m]
    while todo:
        g = todo.pop()
        if g["t"] == "g":
            groups += [g] * (len(g["names"]) > 1)
            todo += g["kids"]
    if groups:
        g = rng.choice(groups)
        order = rng.sample(range(len(g["names"])), len(g["names"]))
        g["names"], g["kids"] = [g["names"][i] for i in order], [g["kids"][i] for i in order]
    return m


def top_latent(m):
    return "latent" in m["names"]


def run(c):
    kind = c["k"]
    if kind == "equal":
        a, b = build(c["a"]), build(c["b"])
        order = c["order"] and not c.get("default")
        fn = (lambda: a.equal_to(b)) if c.get("default") else (lambda: a.equal_to(b, check_order=c["order"]))
        return {"k": kind, "a": strip(c["a"]), "b": strip(c["b"]), "order": order,
                "r": out(fn, boolean, False), "same": same(a, c["a"]) and same(b, c["b"])}
    m = None if kind == "struct" else build(c["m"])
    node = strip(c["m"])
    e = {"k": kind, "m": node}
    if kind == "pick":
        e["names"] = c["names"]
        e["r"] = proj_or_empty(lambda: m[c["names"]])
    elif kind == "rows":
        n = count(node)
        key, style = c["key"], c["style"]
        if style == "slice":
            real = slice(*key)
            idx = list(range(n))[real]
        elif style == "ints":
            real, idx = np.array(key), [k % n for k in key]
        elif style == "int":
            real, idx = key[0], [key[0] % n]
        else:
            idx = [i for i, x in enumerate(key) if x]
            real = np.array(key, dtype=bool)
            if style == "maskarray":
                real = gcl.MaskArray(real)
            elif style == "group":
                real = gcl.MaskGroup({"u": real, "v": np.zeros(n, dtype=bool)}, agg_op="or")
        e["idx"] = [i + 1 for i in idx]
        e["r"] = proj_or_empty(lambda: m[real])
    elif kind == "copy":
        e["r"] = proj_or_empty(lambda: m.copy())
    elif kind == "drop":
        e["key"], e["inplace"] = c["key"], c["inplace"]
        if c["default"]:
            fn = lambda: m.recursive_drop(inplace=c["inplace"])
        else:
            fn = lambda: m.recursive_drop(c["key"], inplace=c["inplace"])
        e["r"] = proj_or_empty(fn)
        e["post"] = project(m)
        return e
    elif kind == "flat":
        how = c["how"]
        if how in ("leaves", "leaf_masks") and top_latent(node):
            # whether a remainder entry at the top level is a leaf is unspecified
            i = node["names"].index("latent")
            node["names"].pop(i)
            node["kids"].pop(i)
            m = build({**node, "style": 0})
            c["m"] = node
        e["how"] = how
        if how == "leaf_masks":
            fn = lambda: gcl.select.leaf_masks(m)
        elif c.get("default"):
            fn = lambda: m.flatten()
        else:
            fn = lambda: m.flatten(how)
        e["r"] = proj_or_empty(fn)
    elif kind == "serial":
        r = proj_or_empty(lambda: gcl.MaskGroup(m.serialize()))
        e["r"] = r
        e["eq"] = False
        if r["ok"]:
            e["eq"] = bool(m.equal_to(gcl.MaskGroup(m.serialize()), check_order=True))
    elif kind == "iter":
        e.update(names=list(m), len=len(m), members=[project(x) for x in m.values()],
                 probe=c["probe"], contains=c["probe"] in m)
        if list(m.keys()) != e["names"] or [k for k, _ in m.items()] != e["names"]:
            e["names"] = ["keys-disagree"]
        if [project(m[k]) for k in m] != e["members"]:
            e["members"] = []
    elif kind == "struct":
        n = count(node)
        arr = np.zeros(n, dtype=[(x, "<?") for x in node["names"]])
        for name, kid in zip(node["names"], node["kids"]):
            arr[name] = kid["b"]
        e["r"] = proj_or_empty(lambda: gcl.MaskGroup.from_numpy_structured(arr))
        return e
    elif kind == "mut":
        events = []
        for step in c["steps"]:
            pre = project(m)
            op, name = step["op"], step["name"]
            ok = True
            try:
                if op == "set":
                    m[name] = build(step["m"])
                elif op == "del":
                    del m[name]
                elif op == "pop":
                    m.pop(name)
                elif op == "aggop":
                    m.agg_op = name
                elif op == "drop":
                    m.recursive_drop(name, inplace=True)
            except KeyError:
                ok = False
            val = strip(step["m"])
            if val["t"] == "a":
                val["t"] = "m"
            events.append({"k": "mut", "op": op, "name": name, "m": val, "pre": pre,
                           "post": project(m), "ok": ok, "len": len(m)})
        return events
    e["same"] = same(m, c["m"])
    return e


def count(node):
    if node["t"] != "g":
        return len(node["b"])
    return max([count(k) for k in node["kids"]], default=0)
