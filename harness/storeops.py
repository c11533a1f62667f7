"""Catalogue of public calls on pools of objects.

An entry is (types, maker); maker(rng, *objects) gives (name, function) or
(name, function, shared), where shared are positions of the arguments the
result may share memory with. The name carries every plain parameter, and
the function takes the objects only.
"""
import numpy as np

import graphicle as gcl

CALLS, SETS, FAILS = {}, {}, {}


def put(table, *types):
    def add(maker):
        table.setdefault(types, []).append(maker)
        return maker
    return add


def attr(table, typ, names, shared=()):
    for n in names.split():
        put(table, typ)(lambda rng, x, n=n: (n, lambda x: getattr(x, n), shared))


def meth(table, typ, names, shared=()):
    for n in names.split():
        put(table, typ)(lambda rng, x, n=n: (n + "()", lambda x: getattr(x, n)(), shared))


ARRAYS = "pmu pdg col hel sta mask".split()
for t in ARRAYS + ["adj"]:
    attr(CALLS, t, "data", (0,))
    meth(CALLS, t, "serialize")
    put(CALLS, t)(lambda rng, x: ("repr", lambda x: repr(x)))
    put(CALLS, t)(lambda rng, x: ("list", lambda x: list(x)))
    put(CALLS, t)(lambda rng, x: ("bool-len", lambda x: [bool(x), len(x)]))
    put(CALLS, t)(lambda rng, x: ("asarray", lambda x: np.asarray(x), (0,)))
    put(CALLS, t)(lambda rng, x: ("array", lambda x: np.array(x)))

    @put(CALLS, t)
    def slice_(rng, x):
        a, b, c = rng.choice([None, 0, 1]), rng.choice([None, -1, len(x), 2]), rng.choice([None, 1, 2, -1])
        return f"[{a}:{b}:{c}]", lambda x: x[a:b:c], (0,)

    @put(CALLS, t)
    def index(rng, x):
        i = rng.randrange(-len(x), len(x)) if len(x) else 0
        return f"[{i}]", lambda x: x[i], (0,)

    @put(CALLS, t)
    def fancy(rng, x):
        idx = [rng.randrange(len(x)) for _ in range(rng.randint(0, 4))] if len(x) else []
        key = rng.choice([idx, np.array(idx, dtype=int)])
        return f"[{type(key).__name__}{idx}]", lambda x: x[key]

    @put(CALLS, t, "mask")
    def masked(rng, x, m):
        return "[mask]", lambda x, m: x[m]

    @put(CALLS, t, "group")
    def grouped(rng, x, m):
        return "[group]", lambda x, m: x[m]

    @put(CALLS, t, t)
    def compare(rng, x, y):
        o = rng.choice(["==", "!="])
        return o, lambda x, y: (x == y if o == "==" else x != y)

    @put(FAILS, t)
    def out_of_range(rng, x):
        i = len(x) + rng.randint(0, 3)
        return f"[{i}]", lambda x: x[i]

    @put(FAILS, t)
    def wrong_key(rng, x):
        return "['nonsense']", lambda x: x["nonsense"]

NUMERIC = "pmu pdg col hel sta adj".split()
for t in NUMERIC:
    @put(CALLS, t)
    def scalar_arith(rng, x):
        k = rng.randint(-3, 3)
        o = rng.choice(["+", "*", "-", "r-"])
        return f"{o}{k}", {"+": lambda x: x + k, "*": lambda x: x * k, "-": lambda x: x - k, "r-": lambda x: k - x}[o]

    @put(CALLS, t)
    def unary(rng, x):
        u = rng.choice([np.negative, np.abs, np.square, np.sign])
        return u.__name__, lambda x: u(x)

    @put(CALLS, t)
    def sums(rng, x):
        u = rng.choice([np.sum, np.max, np.min])
        a = rng.choice([0, None])
        return f"{u.__name__} {a}", lambda x: u(x, axis=a)

    @put(CALLS, t, t)
    def pair_arith(rng, x, y):
        u = rng.choice([np.add, np.subtract, np.multiply, np.maximum])
        return u.__name__, lambda x, y: u(x, y)

    @put(SETS, t)
    def in_place(rng, x):
        k = rng.choice([-2, 2, 3])

        def add(x):
            x += k

        def mul(x):
            x *= k

        def out(x):
            np.multiply(x, k, out=x)

        def neg(x):
            np.negative(x, out=x)
        f = rng.choice([add, mul, out, neg])
        return f"in place {f.__name__} {k}", f

    @put(SETS, t, t)
    def in_place_pair(rng, x, y):
        def add(x, y):
            x += y

        def out(x, y):
            np.subtract(x, y, out=x)
        f = rng.choice([add, out])
        return f"in place {f.__name__}", f

    @put(FAILS, t)
    def bad_in_place(rng, x):
        def bad(x):
            x += np.arange(len(x) + 7.0)
        return "set:in place bad", bad

for t in ARRAYS:
    @put(SETS, t, t)
    def replaced(rng, x, y):
        def f(x, y):
            x.data = y.data
        return "data = data", f, (1,)

    @put(SETS, t, t)
    def replaced_by_list(rng, x, y):
        def f(x, y):
            x.data = [tuple(v) if isinstance(v, tuple) else v for v in y]
        return "data = list", f

    @put(FAILS, t)
    def bad_data(rng, x):
        bad = rng.choice([[[1, 2, 3]], [[1.5] * 5] * 2, "text", [[1, 2, 3], [1, 2]], object()])

        def f(x):
            x.data = bad
        return f"set:data = {bad if not type(bad) is object else 'object'}", f
for t in ARRAYS + ["adj", "group", "pset", "event"]:
    put(CALLS, t)(lambda rng, x: ("copy:copy()", lambda x: x.copy()))

# --- momenta
def defined(x):
    """FastJet is not given undefined energies (it does not survive them)."""
    if not np.all(np.abs(np.asarray(x)) < 1e100):
        raise ValueError
    return x


attr(CALLS, "pmu", "x y z energy", (0,))
for _ in range(3):
    attr(CALLS, "pmu", "pt eta rapidity phi theta mass mass_t")


@put(CALLS, "pmu")
def shift(rng, x):
    m = rng.choice(["shift_phi", "shift_rapidity", "shift_eta"])
    a = rng.choice([0.0, 0.5, -1.25, 3.0])
    return f"{m}({a})", lambda x: getattr(x, m)(a)


@put(CALLS, "pmu")
def shift_experimental(rng, x):
    a = rng.choice([0.5, -1.25])
    return f"shift_eta_exp({a})", lambda x: x.shift_eta(a, experimental=True)


@put(CALLS, "pmu", "nd")
def shift_each(rng, x, w):
    m = rng.choice(["shift_phi", "shift_rapidity"])
    return f"{m}(each)", lambda x, w: getattr(x, m)(w)


for _ in range(3):
    @put(CALLS, "pmu", "pmu")
    def delta_r(rng, x, y):
        p, t = rng.random() < 0.5, rng.choice([1, 2])
        return f"delta_R {p} {t}", lambda x, y: x.delta_R(y, pseudo=p, threads=t)


@put(CALLS, "pmu")
def delta_r_self(rng, x):
    p = rng.random() < 0.5
    return f"delta_R self {p}", lambda x: x.delta_R(x, pseudo=p)


@put(CALLS, "pmu")
@put(CALLS, "pmu")
@put(CALLS, "pmu")
@put(CALLS, "pmu")
def calculated(rng, x):
    c, p = gcl.calculate, rng.random() < 0.5
    r = rng.choice([0.4, 1.0])
    f = rng.choice([
        ("weighted_centroid", lambda x: c.weighted_centroid(x, pseudo=p)),
        ("resultant_coords", lambda x: c.resultant_coords(x, pseudo=p)),
        ("combined_mass", lambda x: c.combined_mass(x)),
        ("combined_mass of data", lambda x: c.combined_mass(x.data)),
        (f"cluster_coeff {r}", lambda x: c.cluster_coeff_distbn(x, r, pseudo=p)),
        ("c_parameter", lambda x: c.c_parameter(x)),
        ("delta_R_aff", lambda x: gcl.matrix.delta_R_aff(x)),
        ("soft_hard_axis", lambda x: gcl.transform.soft_hard_axis(x)),
        ("split_hardest", lambda x: gcl.transform.split_hardest(x, 0.3, 0.1)),
        ("split_hardest axis", lambda x: gcl.transform.split_hardest(x, 0.5, r, (0.3, 1.0))),
        ("split_momentum", lambda x: gcl.transform.split_momentum(x[:1], 0.25, r, (1.3, 1.0))),
    ])
    return f"{f[0]} {p}", f[1]


@put(CALLS, "pmu")
def shapes(rng, x):
    s, a = rng.randint(0, 3), rng.random() < 0.5
    f = rng.choice([gcl.calculate.thrust, gcl.calculate.spherocity])
    return f"{f.__name__} {s} {a}", lambda x: f(x, return_axis=a, rng_seed=s)


@put(CALLS, "pmu", "nd")
def weighted_mass(rng, x, w):
    if w.ndim == 1 and rng.random() < 0.8:
        return "combined_mass weights", lambda x, w: gcl.calculate.combined_mass(x, w[:, None])
    return "combined_mass raw weights", lambda x, w: gcl.calculate.combined_mass(x, w)


@put(CALLS, "pmu", "masks")
def aggregated(rng, x, m):
    return "aggregate_momenta", lambda x, m: gcl.calculate.aggregate_momenta(x, m)


@put(CALLS, "pmu", "group")
def aggregated_group(rng, x, m):
    return "aggregate_momenta group", lambda x, m: gcl.calculate.aggregate_momenta(x, m.values())


@put(CALLS, "pmu", "pmu")
def parton_hadron(rng, x, y):
    e = rng.choice([-0.1, 1.0])
    return f"parton_hadron_distance {e}", lambda x, y: gcl.matrix.parton_hadron_distance(x, y, e)


for _ in range(2):
    @put(CALLS, "pmu", "pmu")
    def closest(rng, x, y):
        if len(x) > len(y):
            return "lengths", lambda x, y: len(x) + len(y)
        return "arg_closest", lambda x, y: gcl.select.arg_closest(x, y)


@put(CALLS, "pmu")
def jets(rng, x):
    r, p = rng.choice([0.4, 1.0]), rng.choice([-1, 0, 1, 0.5])
    kw = rng.choice([{}, {"pt_cut": 2.0}, {"top_k": 1}, {"eta_cut": 2.0}])
    return f"fastjet {r} {p} {kw}", lambda x: gcl.select.fastjet_clusters(defined(x), r, p, **kw)


@put(CALLS, "pmu")
@put(CALLS, "pmu")
def prune(rng, x):
    r = rng.choice([0.4, 1.5])
    c = rng.choice([None, (0.1, -0.5)])
    return f"centroid_prune {r} {c}", lambda x: gcl.select.centroid_prune(x, r, centre=c)


@put(CALLS, "pmu", "mask")
def prune_masked(rng, x, m):
    return "centroid_prune mask", lambda x, m: gcl.select.centroid_prune(x, 1.0, mask=m)


@put(FAILS, "pmu")
def bad_momentum_calls(rng, x):
    f = rng.choice([
        ("fastjet bad", lambda x: gcl.select.fastjet_clusters(defined(x), 1.0, -1, eta_cut=-1.0)),
        ("fastjet not momenta", lambda x: gcl.select.fastjet_clusters(x.data, 1.0, -1)),
        ("prune text", lambda x: gcl.select.centroid_prune(x, 1.0, centre=(1,))),
        ("split z", lambda x: gcl.transform.split_hardest(x, 0.9, 0.1)),
        ("shift text", lambda x: x.shift_phi("text")),
        ("shift length", lambda x: x.shift_rapidity(np.ones(len(x) + 3))),
        ("delta_R text", lambda x: x.delta_R("text")),
        ("delta_R threads", lambda x: x.delta_R(x, threads=100000)),
        ("weights list", lambda x: gcl.calculate.combined_mass(x, [1.0])),
        ("weights length", lambda x: gcl.calculate.combined_mass(x, np.ones((len(x) + 3, 1)))),
        ("mask length", lambda x: x[np.ones(len(x) + 3, dtype=bool)]),
        ("aggregate bad", lambda x: gcl.calculate.aggregate_momenta(x, [np.ones(len(x) + 3, dtype=bool)])),
        ("arg_closest bad", lambda x: gcl.select.arg_closest(x, None)),
    ])
    return f


@put(CALLS)
def drawn(rng):
    n, s, q = rng.randint(0, 6), rng.randint(0, 3), rng.choice([0.0, 0.5, 1.0])
    return f"from_spherical_uniform {n} {s} {q}", lambda: gcl.MomentumArray.from_spherical_uniform(n, 10.0, q, s)


@put(CALLS)
def empties(rng):
    c = rng.choice([gcl.MomentumArray, gcl.PdgArray, gcl.ColorArray, gcl.MaskArray, gcl.MaskGroup,
                    gcl.AdjacencyList, gcl.ParticleSet, gcl.Graphicle])
    return f"{c.__name__}()", lambda: c()


@put(CALLS)
def made(rng):
    i = rng.randint(0, 3)
    names = ("u d", "t t~", "H0 g", "nonsense")[i].split()
    n = rng.randint(1, 4)
    turn, axis = rng.choice([0.5, -1.25, 3.0]), gcl.transform.SphericalAngle(rng.choice([0.25, 2.0]), rng.choice([0.0, -1.0]))
    return rng.choice([
        (f"rotation_matrix {turn} {tuple(axis)}", lambda: gcl.transform.rotation_matrix(turn, axis)),
        (f"from_name {i}", lambda: gcl.PdgArray.from_name(names)),
        (f"fc_adj {n} {i > 1}", lambda: gcl.matrix.fc_adj(n, self_loop=i > 1)),
    ])


# --- codes, colours, statuses
attr(CALLS, "pdg", "name latex charge mass mass_bounds quarks width width_bounds isospin g_parity space_parity "
                   "charge_parity")
attr(CALLS, "col", "color anticolor", (0,))
attr(CALLS, "sta", "hard_mask")


@put(CALLS, "pdg")
def pdg_mask(rng, x):
    t = rng.sample([1, -1, 2, 6, -6, 11, 21, 24, 211], rng.randint(0, 4))
    b, s = rng.random() < 0.5, rng.random() < 0.5
    return f"mask {t} {b} {s}", lambda x: x.mask(t, blacklist=b, sign_sensitive=s)


@put(CALLS, "sta")
def in_range(rng, x):
    a, b, s = rng.choice([None, 20, -30]), rng.choice([None, 30, 90]), rng.random() < 0.5
    return f"in_range {a} {b} {s}", lambda x: x.in_range(a, b, s)


@put(FAILS, "pdg")
def bad_pdg(rng, x):
    return rng.choice([("mask None", lambda x: x.mask(None)), ("from_name", lambda x: x.from_name(["u", "nonsense"]))])


@put(FAILS, "sta")
def bad_range(rng, x):
    return "in_range bad", lambda x: x.in_range(50, 20)


# --- masks
@put(CALLS, "mask", "mask")
def mask_ops(rng, x, y):
    o = rng.choice(["&", "|", "==", "!="])
    return o, {"&": lambda x, y: x & y, "|": lambda x, y: x | y, "==": lambda x, y: x == y, "!=": lambda x, y: x != y}[o]


@put(CALLS, "mask", "group")
def mask_group_ops(rng, x, y):
    o = rng.choice(["&", "|", "==", "!=", "r&", "r|"])
    return "group" + o, {"&": lambda x, y: x & y, "|": lambda x, y: x | y, "==": lambda x, y: x == y,
                         "!=": lambda x, y: x != y, "r&": lambda x, y: y & x, "r|": lambda x, y: y | x}[o]


put(CALLS, "mask")(lambda rng, x: ("~", lambda x: ~x))
put(CALLS, "mask")(lambda rng, x: ("MaskArray(m)", lambda x: gcl.MaskArray(x.data), (0,)))


def jaccard(*masks):
    """Only asked of equal lengths: otherwise it may read beyond the end."""
    if len(set(map(len, masks))) > 1:
        raise ValueError("lengths differ")
    return gcl.calculate.jaccard_distance(*masks)


@put(CALLS, "mask", "mask")
def overlap(rng, x, y):
    return rng.choice([("jaccard", jaccard),
                       ("group of two", lambda x, y: gcl.MaskGroup({"a": x, "b": y}, "or"), (0, 1)),
                       ("list of two", lambda x, y: [x, y], (0, 1))])


@put(CALLS, "mask", "mask", "nd")
def jaccard_weighted(rng, x, y, w):
    return "jaccard weights", jaccard


@put(SETS, "mask")
def mask_item(rng, x):
    i, v = (rng.randrange(len(x)) if len(x) else 0), rng.random() < 0.5
    k = rng.choice([i, slice(None, i), slice(None, None, 2)])

    def f(x):
        x[k] = v
    return f"[{k}] = {v}", f


@put(SETS, "mask", "mask")
def mask_where(rng, x, y):
    def where(x, y):
        x[y] = False

    def out(x, y):
        np.logical_xor(x, y, out=x)

    def whole(x, y):
        x[:] = y.data
    f = rng.choice([where, out, whole])
    return f.__name__, f


@put(FAILS, "mask")
def bad_mask(rng, x):
    def item(x):
        x[len(x) + 2] = True

    def rows(x):
        x[:] = np.ones(len(x) + 2, dtype=bool)
    return rng.choice([("set:item", item), ("set:rows", rows), ("& text", lambda x: x & "text"),
                       ("& length", lambda x: x & gcl.MaskArray([True] * (len(x) + 2)))])


# --- groups
meth(CALLS, "group", "flatten keys values items", (0,))
# an aggregate is a new mask, also that of a single member
for _ in range(2):
    meth(CALLS, "group", "bitwise_or bitwise_and")
    attr(CALLS, "group", "data")
meth(CALLS, "group", "serialize")
attr(CALLS, "group", "agg_op")
put(CALLS, "group")(lambda rng, x: ("repr-str", lambda x: [repr(x), str(x)]))
put(CALLS, "group")(lambda rng, x: ("~", lambda x: ~x))
put(CALLS, "group")(lambda rng, x: ("bool-len", lambda x: [bool(x), len(x), list(x)]))
put(CALLS, "group")(lambda rng, x: ("asarray", lambda x: np.asarray(x)))
put(CALLS, "group")(lambda rng, x: ("flatten agg", lambda x: x.flatten("agg"), (0,)))
put(CALLS, "group")(lambda rng, x: ("flatten leaves", lambda x: x.flatten("leaves"), (0,)))
put(CALLS, "group")(lambda rng, x: ("leaf_masks", lambda x: gcl.select.leaf_masks(x), (0,)))
put(CALLS, "group")(lambda rng, x: ("any_overlap", lambda x: gcl.select.any_overlap(x)))
put(CALLS, "group")(lambda rng, x: ("regroup", lambda x: gcl.MaskGroup(dict(x.items()), x.agg_op), (0,)))


@put(CALLS, "group")
def group_get(rng, x):
    k = rng.choice(list(x) or ["none"])
    if rng.random() < 0.3:
        return f"[[{k!r}]]", lambda x: x[[k]], (0,)
    return f"[{k!r}]", lambda x: x[k], (0,)


@put(CALLS, "group")
def group_rows(rng, x):
    a, s = rng.choice([0, 1]), rng.choice([1, 2])
    return f"[{a}::{s}]", lambda x: x[a::s], (0,)


@put(CALLS, "group")
def group_dropped(rng, x):
    k = rng.choice((list(x) or ["none"]) + ["latent", "latent"])
    return f"recursive_drop({k!r})", lambda x: x.recursive_drop(k)


@put(CALLS, "group", "group")
def group_pair(rng, x, y):
    c = rng.random() < 0.5
    o = rng.choice(["equal_to", "&", "|", "=="])
    return f"{o} {c}", {"equal_to": lambda x, y: x.equal_to(y, c), "&": lambda x, y: x & y, "|": lambda x, y: x | y,
                        "==": lambda x, y: x == y}[o]


@put(SETS, "group")
def group_change(rng, x):
    k = rng.choice(list(x) or ["none"])
    v = rng.choice(["or", "and", "none"])

    def delete(x):
        del x[k]

    def pop(x):
        x.pop(k)

    def popitem(x):
        x.popitem()

    def agg(x):
        x.agg_op = v

    def drop(x):
        x.recursive_drop("latent", inplace=True)

    def drop_key(x):
        x.recursive_drop(k, inplace=True)
    f = rng.choice([delete, pop, popitem, agg, agg, drop, drop, drop_key])
    return f"{f.__name__} {k!r} {v}", f


@put(SETS, "group", "mask")
def group_put(rng, x, m):
    k = rng.choice((list(x) or ["a"]) + ["new", "latent"])

    def item(x, m):
        x[k] = m

    def update(x, m):
        x.update({k: m, "z": m})

    def default(x, m):
        x.setdefault(k, m)
    f = rng.choice([item, update, default])
    return f"{f.__name__} {k!r}", f, (1,)


@put(SETS, "group", "group")
def group_put_group(rng, x, m):
    def item(x, m):
        if "deep" in m:
            raise ValueError
        x["deep"] = m.copy()
    return "put group", item, (1,)


@put(FAILS, "group")
def bad_group(rng, x):
    def key(x):
        x[3] = gcl.MaskArray([True])

    def gone(x):
        del x["missing"]

    def pop(x):
        x.pop("missing")
    return rng.choice([("set:key", key), ("set:gone", gone), ("set:pop", pop), ("['missing']", lambda x: x["missing"]),
                       ("from_numpy_structured", lambda x: gcl.MaskGroup.from_numpy_structured(np.ones(3))),
                       ("to_group text", lambda x: gcl.MaskGroup({"a": "text"}))])


@put(CALLS, "masks")
def masks_grouped(rng, x):
    return rng.choice([
        ("group", lambda x: gcl.MaskGroup({str(i): m for i, m in enumerate(x)}, "or"), (0,)),
        ("overlap", lambda x: gcl.select.any_overlap(gcl.MaskGroup({str(i): m for i, m in enumerate(x)}, "or"))),
        ("first", lambda x: x[0], (0,))])


# --- graphs
for _ in range(2):
    attr(CALLS, "adj", "nodes roots leaves matrix")
attr(CALLS, "adj", "edges weights", (0,))
put(CALLS, "adj")(lambda rng, x: ("to_sparse()", lambda x: x.to_sparse()))
put(CALLS, "adj")(lambda rng, x: ("to_sparse(data)", lambda x: x.to_sparse(np.arange(len(x)) + 1.0)))
put(CALLS, "adj")(lambda rng, x: ("rematrix", lambda x: gcl.AdjacencyList.from_matrix(x.matrix)))
put(CALLS, "adj", "nd")(lambda rng, x, w: ("weighted", lambda x, w: gcl.AdjacencyList(x.edges, w), (0, 1)))
put(CALLS, "square")(lambda rng, x: ("from_matrix", lambda x: gcl.AdjacencyList.from_matrix(x, weighted=True), (0,)))


def vertex(rng, adj):
    e = adj.edges
    return int(rng.choice(list(e["src"]) + list(e["dst"]))) if len(adj) else 0


for _ in range(2):
    @put(CALLS, "adj")
    def descendants(rng, x):
        if rng.random() < 0.5 and len(x):
            e = gcl.data.VertexPair(*map(int, x.edges[rng.randrange(len(x))]))
            return f"edge_descendants {tuple(e)}", lambda x: gcl.select.edge_descendants(x, e)
        v = vertex(rng, x)
        return f"vertex_descendants {v}", lambda x: gcl.select.vertex_descendants(x, v)


@put(CALLS, "adj", "sta")
def hadrons(rng, x, s):
    if len(x) != len(s):
        return "len", lambda x, s: [len(x), len(s)]
    return "hadron_vertices", lambda x, s: gcl.select.hadron_vertices(x, s)


@put(SETS, "adj", "nd")
def weigh(rng, x, w):
    def f(x, w):
        if w.ndim != 1 or len(w) != len(x):
            raise ValueError
        x.weights = w
    return "weights =", f, (1,)


@put(FAILS, "adj")
def bad_adj(rng, x):
    return rng.choice([("missing vertex", lambda x: gcl.select.vertex_descendants(x, 123456)),
                       ("missing edge", lambda x: gcl.select.edge_descendants(x, gcl.data.VertexPair(123456, 123457))),
                       ("not a status", lambda x: gcl.select.hadron_vertices(x, None)),
                       ("from_matrix", lambda x: gcl.AdjacencyList.from_matrix("text"))])


# --- matrices
@put(CALLS, "square")
def cuts(rng, x):
    m, s, w, c = rng.choice(["max", "min"]), rng.random() < 0.5, rng.random() < 0.5, rng.choice([0.3, 1.0, 2.0])
    return f"cut_adj {c} {m} {s} {w}", lambda x: gcl.matrix.cut_adj(x, c, m, s, w)


@put(CALLS, "square")
def neighbours(rng, x):
    k, s, w, r = rng.randint(1, max(1, len(x) - 1)), rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5
    return f"knn_adj {k} {s} {w} {r}", lambda x: gcl.matrix.knn_adj(x, k, s, w, r)


@put(FAILS, "square")
def bad_matrix(rng, x):
    return rng.choice([("cut mode", lambda x: gcl.matrix.cut_adj(x, 1.0, "nonsense")),
                       ("knn k", lambda x: gcl.matrix.knn_adj(x, len(x) + 5))])


# --- composites
for t in ("pset", "event"):
    attr(CALLS, t, "pdg pmu color helicity status final", (0,))
    meth(CALLS, t, "serialize")
    put(CALLS, t)(lambda rng, x: ("bool-len", lambda x: [bool(x), len(x)]))
    put(CALLS, t)(lambda rng, x: ("str", lambda x: [str(x), repr(x), x._repr_html_()]))
    put(CALLS, t, "mask")(lambda rng, x, m: ("[mask]", lambda x, m: x[m]))
    put(CALLS, t, "group")(lambda rng, x, m: ("[group]", lambda x, m: x[m]))

    @put(CALLS, t)
    def part(rng, x):
        a, s = rng.choice([0, 1, 3]), rng.choice([1, 2])
        return rng.choice([(f"[{a}::{s}]", lambda x: x[a::s], (0,)), (f"[[{a}]]", lambda x: x[[a]])])

    @put(FAILS, t)
    def bad_part(rng, x):
        n = len(x) + 3
        return rng.choice([("[mask]", lambda x: x[np.ones(n, dtype=bool)]), ("[n]", lambda x: x[n]),
                           ("[text]", lambda x: x["text"])])

    @put(SETS, t)
    def change_part(rng, x):
        p = (lambda x: x) if hasattr(x, "from_lhe_event") else (lambda x: x.particles)

        def scale(x):
            p(x).pmu *= 2.0

        def scale_inside(x):
            q = p(x).pmu
            q += 1.0

        def final(x):
            if not len(p(x).final):
                raise ValueError
            p(x).final[0] = not p(x).final.data[0]

        def codes(x):
            p(x).pdg.data = [21] * len(x)

        def columns(x):
            p(x).status = gcl.StatusArray([23] * len(x))

        def reverse(x):
            p(x).pmu = p(x).pmu[::-1]
        f = rng.choice([scale, scale_inside, final, codes, columns, reverse])
        return f"{f.__name__}", f

    @put(SETS, t, "pmu")
    def change_momenta(rng, x, y):
        p = (lambda x: x) if hasattr(x, "from_lhe_event") else (lambda x: x.particles)

        def f(x, y):
            if len(y) != len(x):
                raise ValueError
            p(x).pmu.data = y.data
        return "pmu.data = data", f, (1,)

attr(CALLS, "event", "particles adj", (0,))
attr(CALLS, "event", "edges", (0,))
attr(CALLS, "event", "nodes hard_mask")
put(CALLS, "pmu", "mask")(lambda rng, x, m: ("ParticleSet", lambda x, m: gcl.ParticleSet(pmu=x, final=m), (0, 1)))
put(CALLS, "pset", "adj")(lambda rng, x, a: ("Graphicle", lambda x, a: gcl.Graphicle(x, a), (0, 1)))
put(CALLS, "event")(lambda rng, x: ("renumpy", lambda x: gcl.Graphicle.from_numpy(
    pdg=x.pdg.data, pmu=x.pmu.data, color=x.color.data, status=x.status.data, final=x.final.data, edges=x.edges), (0,)))
put(CALLS, "event")(lambda rng, x: ("from_event", lambda x: gcl.Graphicle.from_event(Record(x)), (0,)))


class Record:
    """An event of another library."""
    def __init__(self, x):
        self.pdg, self.pmu, self.color = x.pdg.data, x.pmu.data, x.color.data
        self.status, self.helicity, self.edges = x.status.data, x.helicity.data, x.edges
        self.masks = {"final": x.final.data}


for _ in range(3):
    @put(CALLS, "event")
    def selections(rng, x):
        s = gcl.select
        t = rng.choice([None, {6}, {-6, 24}, {5, 1}])
        a, b = rng.random() < 0.5, rng.random() < 0.5
        r = rng.choice([0.4, 1.0, 3.0])
        return rng.choice([
            (f"hard_descendants {t} {a} {b}", lambda x: s.hard_descendants(x, t, a, b)),
            ("hierarchy", lambda x: s.hierarchy(x)),
            (f"find_vertex {t}", lambda x: s.find_vertex(x, pdgs_out=t)),
            ("find_vertex in", lambda x: s.find_vertex(x, pdgs_in={6}, pdgs_out={5})),
            (f"clusters {r}", lambda x: s.clusters(x, r)),
            ("hadron_vertices", lambda x: s.hadron_vertices(x.adj, x.status)),
            (f"jets {r}", lambda x: s.fastjet_clusters(defined(x.pmu[x.final]), r, -1.0)),
            ("partition", lambda x: s.partition_descendants(x, s.hierarchy(x))),
            ("singlets", lambda x: s.color_singlets(s.leaf_masks(s.hierarchy(x)), x.status, x.color)),
        ])


for _ in range(2):
    @put(CALLS, "event", "group")
    def selections_given(rng, x, h):
        s = gcl.select
        e = rng.choice([-0.1, 0.5])
        return rng.choice([
            (f"partition_descendants {e}", lambda x, h: s.partition_descendants(x, h, e), (1,)),
            ("hierarchy desc", lambda x, h: s.hierarchy(x, h), (1,)),
            ("color_singlets", lambda x, h: s.color_singlets(h, x.status, x.color)),
            ("color_singlets invert", lambda x, h: s.color_singlets(h, x.status, x.color, True)),
        ])


@put(CALLS, "event", "masks")
def tags(rng, x, m):
    kw = rng.choice([{}, {"intermediate": True}, {"blacklist": [21]}, {"whitelist": [5, 1, 2]}])
    return f"monte_carlo_tag {kw}", lambda x, m: gcl.select.monte_carlo_tag(x.particles, m, **kw), (1,)


@put(FAILS, "event")
def bad_event_calls(rng, x):
    s = gcl.select
    return rng.choice([
        ("hierarchy not an event", lambda x: s.hierarchy(x.particles)),
        ("partition nothing", lambda x: s.partition_descendants(x, None)),
        ("tag nothing", lambda x: s.monte_carlo_tag(x.particles, [])),
        ("singlets nothing", lambda x: s.color_singlets(None, x.status, x.color)),
        ("hard_descendants text", lambda x: s.hard_descendants(x, "text")),
        ("clusters text", lambda x: s.clusters(x, "text"))])


def everything(x):
    """All the quantities an object may keep, in one answer."""
    if isinstance(x, gcl.MomentumArray):
        return [getattr(x, n) for n in "pt eta rapidity phi theta mass mass_t".split()] + [x.delta_R(x)]
    if isinstance(x, gcl.AdjacencyList):
        v = int(x.edges["src"][0]) if len(x) else 0
        return [x.nodes, x.roots if len(x) else 0, x.leaves if len(x) else 0, x.matrix if len(x) else 0,
                x.to_sparse() if len(x) else 0, gcl.select.vertex_descendants(x, v) if len(x) else 0]
    if isinstance(x, gcl.PdgArray):
        return [x.name, x.charge, x.mass, x.mask([21, 1])]
    if isinstance(x, gcl.MaskGroup):
        return [x.serialize(), str(x), x.bitwise_or() if len(x) else 0, x.flatten()]
    if isinstance(x, gcl.StatusArray):
        return [x.hard_mask, x.in_range(20, 60)]
    return [everything(x.pmu), everything(x.pdg), everything(x.status), x.serialize()]


for t in ("pmu", "adj", "pdg", "group", "sta", "pset", "event"):
    put(CALLS, t)(lambda rng, x: ("everything", everything))


def blank(x):
    """Descendants of the hard partons, all taken away."""
    found = gcl.select.hard_descendants(x)
    return gcl.MaskGroup({k: gcl.MaskArray([False] * len(v)) for k, v in found.items()}, found.agg_op)


def hollow(x):
    """Descendants of the hard partons, without the final particles."""
    found = gcl.select.hard_descendants(x)
    keep = ~x.final.data if len(x.final) else True
    return gcl.MaskGroup({k: gcl.MaskArray(v.data & keep) for k, v in found.items()}, found.agg_op)


# --- writing into the memory of an object (its copies must not notice)
def poke(x):
    if isinstance(x, gcl.AdjacencyList):
        x.edges["src"][:1] -= 7
    elif isinstance(x, gcl.MaskGroup):
        for v in x.values():
            poke(v)
    elif isinstance(x, gcl.ParticleSet):
        for v in (x.pdg, x.pmu, x.color, x.helicity, x.status, x.final):
            poke(v)
    elif isinstance(x, gcl.Graphicle):
        poke(x.particles)
        poke(x.adj)
    elif isinstance(x, np.ndarray):
        x[:1] = 0
    else:
        d = x.data
        if d.dtype.names:
            for n in d.dtype.names:
                d[n][:1] += 5
        elif d.dtype == bool:
            d[:1] ^= True
        else:
            d[:1] += 5


POKED = ARRAYS + ["adj", "group", "pset", "event"]
SPOILT = POKED + ["nd", "square"]
# what an object keeps of its own: writing on it is writing on the object
KEPT = set("pt eta phi theta rapidity mass mass_t".split())
