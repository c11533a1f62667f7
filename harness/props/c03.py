"""C03: histories of calls over shared objects."""
import random
import warnings

import numpy as np

import graphicle as gcl

from .. import storeops as ops
from ..events import event, graph
from ..masks import build, rand_tree
from ..store import FIELDS, Tokens, kind, rebuild
from ..topo import array, dag

SHARDS = 8
THEMES = ["pmu", "pmu", "columns", "masks", "graph", "event", "event", "all"]
REAL = ["pmu", "pdg", "col", "hel", "sta", "mask", "group", "adj", "pset", "event"]
POOL = 44


def cases(rng, tier, generated):
    quick = tier == "quick"
    total = 1000 if quick else 9000
    for g in rng.sample(generated, min(len(generated), 500 if quick else 9000)):
        yield {"k": "hist", "script": g["script"], "real": rng.choice(REAL), "seed": rng.randrange(1 << 40)}
    for i in range(total):
        yield {"k": "hist", "theme": THEMES[i % len(THEMES)], "n": rng.choice([8, 16, 24, 32] if quick else [8, 24, 40, 60]),
               "seed": rng.randrange(1 << 40)}


def memory(x):
    if isinstance(x, gcl.MaskGroup):
        return [a for v in x.values() for a in memory(v)]
    if isinstance(x, (gcl.ParticleSet, gcl.Graphicle)):
        x = x.particles if isinstance(x, gcl.Graphicle) else x
        return [a for f in FIELDS for a in memory(getattr(x, f))]
    if isinstance(x, np.ndarray) or kind(x) in ops.POKED:
        return [np.asarray(getattr(x, "data", x) if not isinstance(x, np.ndarray) else x)]
    return []


class History:
    def __init__(self, rng):
        self.rng = rng
        self.objs, self.fam, self.alive = [], [], []
        self.t = Tokens()
        self.steps = []
        self.log = []

    def step(self, op, fn, args=(), kd="call", target=0, of=(), keep=True, alive=True):
        toks = tuple(self.t.exact(self.objs[i - 1]) for i in args)
        name = op + " " + ",".join(kind(self.objs[i - 1]) for i in args)
        if kd == "set":
            name = "set " + name.removeprefix("set:")
        ok, res, new = True, 0, 0
        try:
            with np.errstate(all="ignore"):
                r = fn(*(self.objs[i - 1] for i in args))
            if hasattr(r, "__next__") or type(r).__name__.endswith(("keys", "items", "KeysView", "ValuesView", "ItemsView")):
                r = list(r)
        except Exception as err:
            ok, r = False, None
            res = self.t.answer((name, toks), type(err).__name__)
        if ok and kd != "set":
            res = self.t.answer((name, toks), r)
            if (keep and len(self.objs) < POOL and kind(r) != "plain" or kd == "copy") and r is not NotImplemented:
                self.objs.append(r)
                self.alive.append(alive)
                share = set().union(*(self.fam[j - 1] for j in of)) if of else set()
                new = len(self.objs)
                self.fam.append(share or {new})
        if ok and kd == "set":
            for j, f in enumerate(self.fam):
                if f & self.fam[target - 1] and j != target - 1:
                    self.alive[j] = False
            share = set().union(*(self.fam[j - 1] for j in of)) if of else set()
            own = self.fam[target - 1]
            self.fam = [f | share if f & own else f for f in self.fam]
        if kd == "set":
            self.litter(self.objs[target - 1])
        self.steps.append({"op": name, "kind": kd, "args": list(args), "target": target, "new": new, "of": list(of),
                           "ok": ok, "res": res, "after": [self.t.exact(o) for o in self.objs]})
        return new

    def litter(self, x):
        """Fills memory which was let go of just now."""
        n = np.asarray(getattr(x, "data", 0) if kind(x) in ops.ARRAYS else 0).nbytes
        self.junk = [np.full(n, 85, dtype="u1") for _ in range(12)]

    def add(self, x, what):
        return self.step(what, lambda: x)

    def live(self, typ):
        return [i + 1 for i, o in enumerate(self.objs) if self.alive[i] and kind(o) == typ]

    def choose(self, table):
        """A call of the table on live objects."""
        have = {kind(o) for i, o in enumerate(self.objs) if self.alive[i]}
        sigs = [s for s in table if set(s) <= have]
        sigs = [s for s in sigs for _ in range(1 + min(len(table[s]), 12))]
        if not sigs:
            return None
        sig = self.rng.choice(sigs)
        args = tuple(self.rng.choice(self.live(t)[-6:] if self.rng.random() < 0.6 else self.live(t)) for t in sig)
        made = self.rng.choice(table[sig])(self.rng, *(self.objs[i - 1] for i in args))
        of = tuple(args[j] for j in made[2]) if len(made) > 2 else ()
        return made[0], made[1], args, of

    def query(self, table=ops.CALLS, only=None):
        c = self.choose({s: m for s, m in table.items() if only in s} if only else table)
        if c is None:
            return
        op, fn, args, of = c
        if op.startswith("copy:"):
            self.step(op, fn, args, "copy")
        elif op.startswith("set:"):
            self.step(op, fn, args, "set", target=args[0])
        else:
            new = self.step(op, fn, args, of=of)
            self.log.append((op, fn, args, of))
            if new and self.alive[new - 1] and self.rng.random() < 0.4:
                self.follow(new)
            if new and not of and op not in ops.KEPT and self.rng.random() < (1.0 if self.held(new) else 0.2) and kind(self.objs[new - 1]) in ops.SPOILT:
                # the caller writes on what it was given, and asks again
                self.poke(new)
                self.again(self.log[-1])

    def held(self, i):
        """Whether an object lies where a live one does."""
        mine = memory(self.objs[i - 1])
        return any(self.alive[j] and np.may_share_memory(a, b) for j, o in enumerate(self.objs) if j != i - 1
                   for b in memory(o) for a in mine)

    def follow(self, i):
        """Asks a result something, and its rebuilt twin the same."""
        makers = ops.CALLS.get((kind(self.objs[i - 1]),), [])
        for f in self.rng.sample(makers, min(len(makers), self.rng.choice([1, 2, 4]))):
            op, fn, *of = f(self.rng, self.objs[i - 1])
            if not op.startswith("copy:"):
                self.again((op, fn, (i,), ()))

    def change(self, only=None):
        c = self.choose({s: m for s, m in ops.SETS.items() if not only or s[0] == only})
        if c is None:
            return
        op, fn, args, of = c
        if op.startswith(("in place", "where", "out", "whole")) and any(
                i != args[0] and self.fam[i - 1] & self.fam[args[0] - 1] for i in args):
            return  # an operand which is part of the target
        self.step(op, fn, args, "set", target=args[0], of=of)
        for q in self.rng.sample(self.log, min(len(self.log), 60)):
            if args[0] in q[2]:
                self.again(q)
                if self.rng.random() < 0.6:
                    break

    def poke(self, i):
        self.step(f"poke {len(self.steps)}", ops.poke, (i,), "set", target=i)
        self.alive[i - 1] = False
        for j, f in enumerate(self.fam):
            if f & self.fam[i - 1]:
                self.alive[j] = False

    def again(self, q, originals=True):
        """Repeats a call on the same objects, and on rebuilt ones."""
        op, fn, args, of = q
        if not all(self.alive[i - 1] for i in args):
            return
        if originals and self.rng.random() < 0.5:
            self.step(op, fn, args, keep=False)
        twins = {}
        for i in set(args):
            if self.rng.random() < 0.8 and len(self.objs) < POOL + 25:
                # some twins serve one call only
                twins[i] = self.step("rebuild", rebuild, (i,), alive=self.rng.random() < 0.3)
                if not twins[i]:
                    twins[i] = self.force(i)
        self.step(op, fn, tuple(twins.get(i, i) for i in args), keep=False)
        if originals:
            self.step(op, fn, args, keep=False)

    def force(self, i):
        x = rebuild(self.objs[i - 1])
        self.objs.append(x)
        self.alive.append(False)
        self.fam.append({len(self.objs)})
        self.steps.append({"op": "rebuilt", "kind": "call", "args": [i], "target": 0, "new": len(self.objs), "of": [],
                           "ok": True, "res": 0, "after": [self.t.exact(o) for o in self.objs]})
        return len(self.objs)

    def finish(self, n):
        """Everything asked before is asked again."""
        for q in self.rng.sample(self.log, min(len(self.log), n)):
            self.again(q)
        for t in ("pmu", "adj", "pset", "event"):
            for i in self.live(t)[:7]:
                self.step("everything", ops.everything, (i,), keep=False)
                self.again(("everything", ops.everything, (i,), ()), False)


# --- objects
def momenta(rng, n):
    rows = []
    for _ in range(n):
        p = [rng.gauss(0, 1) * 10 ** rng.uniform(-1, 2) for _ in range(3)]
        m = rng.choice([0.0, 0.0, 0.1, 5.0])
        if rng.random() < 0.06:
            p[0] = p[1] = 0.0
        rows.append(p + [(sum(v * v for v in p) + m * m) ** 0.5])
    return np.array(rows).reshape(-1, 4)


def make(rng, typ, n):
    if typ == "pmu":
        return gcl.MomentumArray(momenta(rng, n))
    if typ == "pdg":
        return gcl.PdgArray([rng.choice([1, 2, -2, 5, 6, -6, 11, -13, 21, 22, 24, 211, 2212]) for _ in range(n)])
    if typ == "col":
        return gcl.ColorArray(np.array([[rng.choice([0, 501, 502]), rng.choice([0, 501, 503])] for _ in range(n)], dtype="<i4").reshape(-1, 2))
    if typ == "hel":
        return gcl.HelicityArray([rng.choice([-1, 0, 1, 9]) for _ in range(n)])
    if typ == "sta":
        return gcl.StatusArray([rng.choice([1, -21, -22, 23, -23, 24, 51, -71, 83]) for _ in range(n)])
    if typ == "mask":
        return gcl.MaskArray([rng.random() < 0.5 for _ in range(n)])
    if typ == "masks":
        return [make(rng, "mask", n) for _ in range(rng.randint(1, 3))]
    if typ == "group":
        names = [f"{x}{i}" for i in range(80) for x in "abq"]
        return build(rand_tree(rng, n, rng.choice([1, 2, 2, 3]), max_kids=rng.choice([1, 2, 4, 4]), names=names))
    if typ == "adj":
        e = array(dag(rng))
        w = [rng.choice([0.5, 1.0, 2.0, 3.0]) for _ in e]
        return gcl.AdjacencyList(e, w) if rng.random() < 0.5 else gcl.AdjacencyList(e)
    if typ == "nd":
        return np.array([rng.uniform(0.1, 2) for _ in range(n)])
    if typ == "square":
        return np.array([[rng.uniform(0, 2) for _ in range(n + 1)] for _ in range(n + 1)])
    ev = graph(event(rng))
    return ev if typ == "event" else ev.particles


def start(h, theme, rng):
    n = rng.choice([1, 2, 3, 5, 8, 12])
    wanted = {"pmu": ["pmu"] * 3 + ["nd", "mask", "masks", "square"],
              "columns": ["pdg", "pdg", "col", "col", "hel", "sta", "sta", "mask", "group"],
              "masks": ["mask"] * 3 + ["group"] * 3 + ["nd", "masks"],
              "graph": ["adj", "adj", "nd", "square", "mask"],
              "event": ["event", "pset"],
              "all": ["pmu", "pdg", "col", "sta", "mask", "group", "adj", "pset", "event", "nd"]}[theme]
    for i, t in enumerate(wanted):
        m = n if rng.random() < 0.8 else rng.choice([0, 1, 2, 4])
        h.add(make(rng, t, m), f"make {t} {i}")
    if theme in ("event", "all"):
        for _ in range(2):
            i = rng.choice(h.live("event"))
            q = ops.selections(rng, h.objs[i - 1])
            h.step(q[0], q[1], (i,))
            h.log.append((q[0], q[1], (i,), ()))
        h.step("final", lambda x: x.final, (i,), of=(i,))
        name, cut = rng.choice([("no descendants", ops.blank), ("no final descendants", ops.hollow)])
        j = h.step(name, cut, (i,))
        if j and rng.random() < 0.5:
            h.step("hierarchy desc", lambda x, h: gcl.select.hierarchy(x, h), (i, j), of=(j,))
        jets = lambda x: gcl.select.fastjet_clusters(ops.defined(x.pmu[x.final]), 0.8, -1.0)
        h.step("jets", jets, (i,))
    if theme == "graph":
        for i in h.live("adj"):
            h.step("ones", lambda x: np.ones(len(x)), (i,))


def scripted(h, c, rng):
    """A history of the specification, on one of the real types."""
    t = c["real"]
    n = rng.choice([1, 2, 4])
    values = {v: rng.randrange(1 << 30) for v in range(5)}
    value = lambda v: make(random.Random(values[v]), t, n)
    side = random.Random(values[0])
    for u in ("mask", "nd") if t != "event" else ():
        h.add(make(side, u, n), f"make {u}")
    ids = [h.add(value(1), "value 1")]
    asked = [ops_ for ops_ in ops.CALLS.get((t,), [])]
    asked = rng.sample(asked, min(len(asked), 2))
    for s in c["script"]:
        o = s[0]
        if o == "new":
            ids.append(h.add(value(s[1]), f"value {s[1]}"))
            continue
        if not 1 <= s[1] <= len(ids) or not ids[s[1] - 1] or not h.alive[ids[s[1] - 1] - 1]:
            if o in ("copy", "view", "query"):
                ids.append(0)
            continue
        i = ids[s[1] - 1]
        if o == "copy":
            ids.append(h.step("copy()", lambda x: x.copy(), (i,), "copy"))
        elif o == "view":
            view = {"group": lambda x: gcl.MaskGroup(dict(x.items()), x.agg_op),
                    "pset": lambda x: x[:], "event": lambda x: x[:]}.get(t, lambda x: x[:])
            ids.append(h.step("view", view, (i,), of=(i,)))
        elif o == "replace":
            if (t,) in ops.SETS or (t, t) in ops.SETS:
                j = h.add(value(s[2]), f"value {s[2]}")
                for made in ops.SETS.get((t, t), [])[-1:]:
                    op, fn, *of = made(rng, h.objs[i - 1], h.objs[j - 1])
                    h.step(op, fn, (i, j), "set", target=i, of=(j,) if of else ())
        elif o == "inplace":
            makers = ops.SETS.get((t,), [])
            if makers and rng.random() < 0.7:
                op, fn, *of = rng.choice(makers)(rng, h.objs[i - 1])
                h.step(op, fn, (i,), "set", target=i)
            else:
                h.poke(i)
        elif o in ("query", "work"):
            f = asked[(o == "work") % len(asked)]
            got = f(random.Random(values[4]), h.objs[i - 1])
            op, fn, of = got[0], got[1], (i,) if len(got) > 2 and got[2] else ()
            if op.startswith("copy:"):
                h.step(op, fn, (i,), "copy")
            else:
                new = h.step(op, fn, (i,), of=of)
                h.log.append((op, fn, (i,), of))
            if o == "query":
                ids.append(0)
        else:
            op, fn = rng.choice(ops.FAILS[t,])(rng, h.objs[i - 1])[:2]
            h.step(op, fn, (i,), *(("set", i) if op.startswith("set:") else ()))
    for i in [j for j in ids if j]:
        for f in asked:
            if h.alive[i - 1] and kind(h.objs[i - 1]) == t:
                got = f(random.Random(values[4]), h.objs[i - 1])
                if not got[0].startswith("copy:"):
                    h.again((got[0], got[1], (i,), ()))


def run(c):
    warnings.simplefilter("ignore")
    rng = random.Random(c["seed"])
    h = History(rng)
    if "script" in c:
        scripted(h, c, rng)
        return {"k": "hist", "steps": h.steps}
    start(h, c["theme"], rng)
    for _ in range(c["n"]):
        u = rng.random()
        if u < 0.55:
            h.query()
        elif u < 0.67 and h.log:
            h.again(rng.choice(h.log), rng.random() < 0.5)
        elif u < 0.82:
            h.change()
        elif u < 0.87:
            t = [i + 1 for i, o in enumerate(h.objs) if kind(o) in ops.POKED and h.alive[i]]
            if t:
                i = rng.choice(t)
                j = h.step("copy()", lambda x: x.copy(), (i,), "copy")
                if j:
                    h.poke(rng.choice([i, j]) if len(t) > 3 else j)
        elif u < 0.92:
            t = [i + 1 for i, o in enumerate(h.objs) if kind(o) in ops.POKED and h.alive[i]]
            if t:
                h.step("copy()", lambda x: x.copy(), (rng.choice(t),), "copy")
        else:
            h.query(ops.FAILS)
    h.finish(10 if c["n"] < 20 else 16)
    return {"k": "hist", "steps": h.steps}
