"""Random graphs: sequences of [src, dst] over integer labels."""
import numpy as np


def labels(rng, n):
    """n distinct vertex labels in one of several conventions."""
    style = rng.choice(["neg", "pos", "mixed", "pythia", "sparse", "wide"])
    if style == "neg":
        pool = list(range(-n, 1))
    elif style == "pos":
        pool = list(range(0, n + 1))
    elif style == "sparse":
        pool = rng.sample(range(-900, 900), n)
    elif style == "wide":
        pool = list({rng.choice([-1, 1]) * (rng.randrange(1 << rng.choice([3, 9, 17, 30])) + 1) for _ in range(3 * n)})
        pool += [x for x in range(-n, n) if x not in pool]
        pool = pool[:n]
    elif style == "pythia":
        pool = [0] + [-i for i in range(1, n // 2 + 1)] + list(range(1, n))
    else:
        pool = list(range(-n, n + 1))
    rng.shuffle(pool)
    return pool[:n]


def dag(rng, nv=None, ne=None):
    nv = nv or rng.choice([2, 2, 3, 4, 5, 7, 10, 15, 22])
    lab = labels(rng, nv)
    ne = ne or rng.randint(1, max(1, min(45, int(nv * rng.choice([1, 1.5, 2.5])))))
    style = rng.choice(["any", "any", "tree", "layers", "chain"])
    E = []
    for i in range(ne):
        if style == "tree":
            if i + 1 >= nv:
                break
            E.append([rng.randrange(max(0, i - 4), i + 1), i + 1])
            continue
        if style == "chain" and i + 1 < nv and rng.random() < 0.7:
            E.append([i, i + 1])
            continue
        a, b = sorted(rng.sample(range(nv), 2))
        if style == "layers":
            b = min(nv - 1, a + rng.randint(1, 3))
            if a == b:
                a -= 1
        E.append([a, b])
    if rng.random() < 0.3:
        E.append(list(rng.choice(E)))
    E = [[lab[a], lab[b]] for a, b in E]
    if rng.random() < 0.7:
        rng.shuffle(E)
    return E


def multigraph(rng):
    nv = rng.choice([1, 2, 3, 4, 6, 9, 14])
    lab = labels(rng, nv)
    ne = rng.randint(1, rng.choice([3, 8, 30]))
    E = [[rng.choice(lab), rng.choice(lab)] for _ in range(ne)]
    for _ in range(rng.choice([0, 0, 1, 3])):
        E.insert(rng.randrange(len(E) + 1), list(rng.choice(E)))
    return E


def deep(rng, n):
    """One long line of descent, with some short cuts and side branches."""
    lab = labels(rng, n)
    E = [[i, i + 1] for i in range(n - 1)]
    for _ in range(rng.choice([0, 2, 6])):
        a = rng.randrange(n - 1)
        E.append([a, min(n - 1, a + rng.randint(1, 5))])
    E = [[lab[a], lab[b]] for a, b in E]
    if rng.random() < 0.7:
        rng.shuffle(E)
    return E


def crowd(rng, n):
    """Many edges between few vertices."""
    lab = labels(rng, rng.choice([2, 3, 5]))
    E = [[lab[0], lab[1]] for _ in range(n)]
    for _ in range(rng.randint(0, 20)):
        E[rng.randrange(n)] = [rng.choice(lab), rng.choice(lab)]
    return E


def array(E):
    return np.array(E, dtype="<i4").reshape(-1, 2)


def edges_of(adj):
    return [[int(s), int(d)] for s, d in adj.edges.tolist()]
