"""Random event records, shaped like those of a parton-shower generator.

An event is a dictionary of parallel lists (one entry per particle):
pdg, status, src, dst, color, anticolor, helicity, final, lat, where lat
gives the momentum on a lattice: pt = 2**k, eta = n * ln(2) / 4,
phi = m * pi / 16, and mass (in units of pt) x.
"""
import math

import numpy as np

LN2 = math.log(2.0)
HADRONS = [211, -211, 111, 321, -321, 2212, -2212, 2112, 130, 22, 310, 113, 213]
QUARKS = [1, 2, 3, 4, 5, -1, -2, -3, -4, -5]
LEPTONS = [11, -11, 12, -12, 13, -13, 14, -14, 15, -15, 16, -16, 22]
RESONANCES = [6, -6, 24, -24, 23, 25]


class Builder:
    def __init__(self, rng):
        self.rng = rng
        self.rows = []
        self.vtx = 0
        self.next_color = 501

    def new_vtx(self):
        self.vtx -= 1
        return self.vtx

    def add(self, pdg, status, src, dst, color=(0, 0), final=False):
        self.rows.append(dict(
            pdg=pdg, status=status, src=src, dst=dst, color=color[0],
            anticolor=color[1], final=final, helicity=self.rng.choice([-1, 0, 1, 9]),
            lat=lattice(self.rng)))
        return len(self.rows) - 1

    def color(self):
        self.next_color += 1
        return self.next_color


def lattice(rng):
    return [rng.randint(0, 5), rng.randint(-20, 20), rng.randint(-15, 16),
            rng.choice([0, 0, 1, 2])]


def event(rng, depth=None, bare=False, merge=True, busy=False):
    """One random event as a dictionary of lists. With bare, partons of the
    hard process may be intermediate without hard children or diffractive; a busy
    event has many hadronisation vertices."""
    b = Builder(rng)
    root = 0
    v1, v2 = b.new_vtx(), b.new_vtx()
    b.add(2212, -12, root, v1)
    b.add(2212, -12, root, v2)
    hard = b.new_vtx()
    loose = []  # coloured partons which still have to hadronise
    for v in (v1, v2):
        src = v
        for _ in range(rng.choice([0, 0, 1, 2])):  # initial-state radiation
            nxt = b.new_vtx()
            b.add(21, -rng.choice([41, 42, 61]), src, nxt)
            if rng.random() < 0.5:
                loose.append((21, src, -43))
            src = nxt
        b.add(rng.choice([21, 2, -2, 1]), -21, src, hard)
    for _ in range(rng.choice([0, 1, 2, 3])):  # background partons
        loose.append((rng.choice(QUARKS + [21]), rng.choice([v1, v2]),
                      -rng.choice([31, 33, 63])))
    leaves = []
    depth = rng.choice([1, 2, 2, 3, 3, 4]) if depth is None else depth
    width = rng.choice([1, 2, 2, 3])
    pool = rng.sample(RESONANCES, rng.randint(1, len(RESONANCES)))
    budget = [14]

    def hard_parton(src, level, names):
        budget[0] -= 1
        if level > 1 and budget[0] > 2 and rng.random() < (0.85 if level == depth else 0.5):
            pdg = rng.choice(pool)
            v = b.new_vtx()
            b.add(pdg, -22, src, v, color=(0, 0))
            for _ in range(rng.choice([0, 1, 1, 2])):  # copies and emissions
                nxt = b.new_vtx()
                b.add(pdg, -rng.choice([44, 52, 62]), v, nxt)
                if rng.random() < 0.5:
                    loose.append((21, v, -51))
                v = nxt
            if bare and rng.random() < 0.2:
                for _ in range(rng.choice([1, 2])):
                    b.add(22, 1, v, None, final=True)
                return
            for _ in range(rng.choice([1, 2, 2, 2, 3])):
                hard_parton(v, level - 1, names)
            return
        kind = rng.random()
        if bare and kind < 0.08:
            v = b.new_vtx()
            b.add(rng.choice([2, 21, 990, 9902210]), -24, src, v)
            b.add(2, -71, v, v - 1)
            loose.append((2, b.new_vtx(), -71))
            return
        if kind < 0.3:
            leaf = b.add(rng.choice(LEPTONS), 23, src, None, final=True)
        elif kind < 0.38:  # lepton which radiates or decays
            v = b.new_vtx()
            leaf = b.add(rng.choice([15, -15]), -23, src, v)
            for _ in range(rng.randint(1, 3)):
                b.add(rng.choice(HADRONS + LEPTONS), 91, v, None, final=True)
        else:
            v = b.new_vtx()
            leaf = b.add(rng.choice(QUARKS[: rng.choice([2, 10])] + [21]), -23, src, v)
            shower(v, rng.randint(0, 3))
        leaves.append(leaf)

    def shower(v, n):
        if n <= 0 or rng.random() < 0.3:
            for _ in range(rng.choice([1, 1, 2])):
                loose.append((rng.choice(QUARKS + [21]), v, -rng.choice([51, 52, 71, 73])))
            return
        for _ in range(rng.choice([1, 2, 2])):
            nxt = b.new_vtx()
            b.add(rng.choice(QUARKS + [21]), -51, v, nxt)
            shower(nxt, n - 1)
        if rng.random() < 0.2:
            b.add(22, 51, v, None, final=True)

    for _ in range(width):
        hard_parton(hard, depth, None)
    if rng.random() < 0.3:
        hard_parton(hard, 1, None)
    if merge and len(loose) > 3 and rng.random() < 0.3:  # reconnection
        rng.shuffle(loose)
        v = b.new_vtx()
        for _ in range(2):
            pdg, src, status = loose.pop()
            b.add(pdg, status, src, v)
        for _ in range(rng.choice([1, 2])):
            loose.append((rng.choice(QUARKS), v, -rng.choice([72, 78])))
    # hadronisation
    nvtx = rng.randint(1, max(1, min(4, len(loose))))
    if busy:
        for _ in range(rng.randint(0, 12)):
            loose.append((rng.choice(QUARKS + [21]), rng.choice([r["src"] for r in b.rows if r["src"]]),
                          -rng.choice([51, 52, 71])))
        nvtx = max(1, rng.randint(len(loose) // 2, len(loose)))
    hads = [b.new_vtx() for _ in range(nvtx)]
    used = set()
    for pdg, src, status in loose:
        v = rng.choice(hads)
        used.add(v)
        if rng.random() < 0.2:
            nxt = b.new_vtx()
            b.add(pdg, status, src, nxt)
            b.add(pdg, -rng.choice([71, 73]), nxt, v)
        else:
            b.add(pdg, status, src, v)
    for v in sorted(used):
        for _ in range(rng.randint(1, 5)):
            st = rng.choice([81, 82, 83, 84, 85, 86, 87, 88, 89])
            if rng.random() < 0.4:
                d = b.new_vtx()
                b.add(rng.choice([113, 213, 310, 111]), -st, v, d)
                for _ in range(rng.randint(1, 3)):
                    b.add(rng.choice(HADRONS), 91, d, None, final=True)
            else:
                b.add(rng.choice(HADRONS), st, v, None, final=True)
    rows = b.rows
    leafset = set(leaves)
    # colour lines on the outgoing partons
    colored = [i for i in leaves if abs(rows[i]["pdg"]) < 7 or rows[i]["pdg"] == 21]
    pending = colored[:]
    rng.shuffle(pending)
    while pending:
        x = rng.random()
        if x < 0.45 and len(pending) >= 2:
            i, j = pending.pop(), pending.pop()
            c = b.color()
            rows[i]["color"], rows[j]["anticolor"] = c, c
            if rng.random() < 0.3:
                d = b.color()
                rows[i]["anticolor"], rows[j]["color"] = d, d
        elif x < 0.65 and len(pending) >= 3:
            i, j, k = pending.pop(), pending.pop(), pending.pop()
            c, d = b.color(), b.color()
            rows[i]["color"] = c
            rows[j]["anticolor"], rows[j]["color"] = c, d
            rows[k]["anticolor"] = d
        else:
            i = pending.pop()
            y = rng.random()
            if y < 0.5:
                rows[i]["color"] = b.color()
            if y > 0.3:
                rows[i]["anticolor"] = b.color()
    # leaf vertices: unique positive labels
    n = 0
    for r in rows:
        if r["dst"] is None:
            n += 1
            r["dst"] = n
    if rng.random() < 0.5:
        # non-contiguous labels of the same signs
        k = rng.choice([2, 3, 10])
        for r in rows:
            for f in ("src", "dst"):
                if r[f] != 0:
                    r[f] = r[f] * k - (1 if r[f] < 0 else -1)
    if rng.random() < 0.4:
        rng.shuffle(rows)
    return {f: [r[f] for r in rows] for f in
            ("pdg", "status", "src", "dst", "color", "anticolor", "helicity", "final", "lat")}


def momenta(lat):
    """Four-momenta (x, y, z, e) of lattice points."""
    out = np.empty((len(lat), 4))
    for i, (k, n, m, x, *fine) in enumerate(lat):
        up, turn = fine or (0, 0)
        pt = 2.0 ** k
        eta = n * LN2 / 4 + up * 1e-8
        phi = m * math.pi / 16 + turn * 1e-8
        px, py = pt * math.cos(phi), pt * math.sin(phi)
        pz = pt * math.sinh(eta)
        out[i] = px, py, pz, math.sqrt(px * px + py * py + pz * pz + (x * pt) ** 2)
    return out


def graph(ev, fields=("pdg", "pmu", "color", "helicity", "status", "final", "edges")):
    """Real event object for a record."""
    import graphicle as gcl

    args = {}
    for f in fields:
        if f == "pmu":
            args[f] = momenta(ev["lat"])
        elif f == "color":
            args[f] = np.array(list(zip(ev["color"], ev["anticolor"])), dtype="<i4")
        elif f == "edges":
            args[f] = np.array(list(zip(ev["src"], ev["dst"])), dtype="<i4")
        elif f == "final":
            args[f] = np.array(ev[f], dtype=bool)
        else:
            args[f] = np.array(ev[f], dtype="<i4" if f == "pdg" else "<i2")
    return gcl.Graphicle.from_numpy(**args)
