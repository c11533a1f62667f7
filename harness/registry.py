"""What decides each property: trace specification, design models, domain."""

REGISTRY = {
    "C01": dict(
        trace="T_C01",
        mc=[dict(module="MC_Masks", cfg="MC_Masks", thorough="MC_Masks_deep", workers=2)],
        kinds=("bin", "un", "overlap", "jaccard"),
        rule="every mask of depth <= 2 in a one-particle world (from TLC), plus random "
             "nested masks over 0..257 particles; an event is one operator call",
    ),
    "C02": dict(
        trace="T_C02",
        mc=[dict(module="MC_Tree", cfg="MC_Tree", thorough="MC_Tree_deep", workers=2)],
        kinds=("pick", "rows", "copy", "drop", "flat", "serial", "equal", "mut", "iter", "struct"),
        rule="every labelled tree of the small scope (from TLC) under every operation, plus "
             "random trees to depth 4 over 0..70 particles, single edits for equality, and "
             "random mutation sequences; an event is one operation with the trees before and after",
    ),
}

REGISTRY.update({
    "C10": dict(
        trace="T_C10",
        mc=[dict(module="MC_Topology", cfg="MC_Topology_views", thorough="MC_Topology_views_deep", workers=2)],
        kinds=("view", "from", "select", "copy"),
        rule="every multigraph of up to 3 edges (4 in thorough) over three labels (from TLC) and "
             "random multigraphs of up to 46 edges in five labelling conventions, dense matrices up "
             "to 16x16; an event is one view requested of one adjacency",
    ),
    "C11": dict(
        trace="T_C11",
        mc=[dict(module="MC_Topology", cfg="MC_Topology_lineage", thorough="MC_Topology_lineage_deep", workers=2)],
        kinds=("vertex", "edge"),
        rule="every acyclic multigraph of up to 3 edges (4 in thorough) over four labels (from TLC), "
             "queried at every vertex and edge, and random ones of up to 46 edges with repeated "
             "queries on one object; an event is one query",
    ),
    "C15": dict(
        trace="T_C15",
        mc=[dict(module="MC_Topology", cfg="MC_Topology_lineage", workers=2)],
        kinds=("find", "hadron"),
        rule="every small acyclic multigraph with codes from a two-letter alphabet, random graphs "
             "and event records with search sets drawn around an existing vertex; an event is one search",
    ),
})

_EVENTS = [dict(module="MC_Event", cfg="MC_Event", thorough="MC_Event_deep", workers=2)]
REGISTRY.update({
    "C12": dict(
        trace="T_C12", mc=_EVENTS, kinds=("desc",), min_chunk=20,
        rule="the event of every forest of up to 4 (thorough: 5) hard partons over two hadronisation "
             "vertices (from TLC), and random Pythia-like events with every target option; an event "
             "is one request for descendants",
    ),
    "C13": dict(
        trace="T_C13", mc=_EVENTS, kinds=("hier",), min_chunk=20,
        rule="the event of every forest of up to 4 (thorough: 5) hard partons over two hadronisation "
             "vertices (from TLC), and random Pythia-like events of depth up to 4; an event is one "
             "hierarchy, computed afresh and from given descendants",
    ),
})

REGISTRY.update({
    "C14": dict(
        trace="T_C14", mc=_EVENTS, kinds=("part", "clusters", "dist"), min_chunk=10,
        rule="events of small hard processes (from TLC) with random lattice momenta, and random "
             "Pythia-like events; every power of a fixed list; an event is one partition, one "
             "clustering or one distance table, in crowded and near-tied configurations and with many vertices too",
        note="The order of distances is decided in integer arithmetic: on a lattice of momenta, refined by "
             "nudges of 1e-8 whose distances are computed to 1e-14 in arithmetic of any length.",
        assumptions=["momenta near the lattice pt=2^k, eta=n ln2/4, phi=m pi/16",
                     "hadronisation vertices are not nested; each leaf has one outgoing parton"],
    ),
    "C16": dict(
        trace="T_C16", mc=[dict(module="MC_Colors", cfg="MC_Colors", thorough="MC_Colors_deep", workers=2)],
        kinds=("singlets",),
        rule="every assignment of two colour lines to three partons (thorough: four; from TLC) and random ones to "
             "up to ten partons, with other particles in the leaves; an event is one call",
    ),
})

_COLUMNS = [dict(module="MC_Columns", cfg="MC_Columns", thorough="MC_Columns_deep", workers=2)]
REGISTRY.update({
    "C04": dict(
        trace="T_C04", mc=_COLUMNS, kinds=("build",),
        rule="every accepted order and naming of record fields and every small flat or nested shape "
             "(from TLC), random values of thirteen source types in every layout up to 64 rows; an "
             "event is one construction with some of the ten ways of reading it",
    ),
})

REGISTRY.update({
    "C24": dict(
        trace="T_C24", mc=[dict(module="MC_Arith", cfg="MC_Arith", thorough="MC_Arith_deep", workers=2)],
        kinds=("bin", "inplace", "cmp", "un", "red", "acc", "eq", "refuse", "pair", "at", "seg"),
        rule="every pair of columns of up to 2 rows (thorough: 3) over two values (from TLC) and random "
             "columns of up to 20 rows of all seven kinds, with fractional, wide and unsigned operands, under eighteen binary, seven unary and four "
             "ordering functions in every operand form and order; an event is one operation",
        note="Integer cells, results exact to a quarter; rounding of general floats is not decided.",
    ),
})

_COMPOSITE = [dict(module="MC_Composite", cfg="MC_Composite", thorough="MC_Composite_deep", workers=2)]
REGISTRY.update({
    "C05": dict(
        trace="T_C05", mc=_COMPOSITE, kinds=("select", "copy"),
        rule="every set of present columns under every pair of keys of up to two (thorough: three) rows "
             "of three (from TLC), random sets and events of up to 70 particles under ten styles of key, "
             "each interpreted by the specification (slices, positions, mask trees); "
             "an event is one selection (possibly repeated) or one copy",
    ),
    "C23": dict(
        trace="T_C23", mc=_COMPOSITE, kinds=("ingest", "lhe", "serial", "table"),
        rule="every set of present columns (from TLC) and random events from event sources, Les Houches "
             "records and arrays in four forms; tables of 1..130 rows in both formats; an event is one "
             "ingestion, serialisation with rebuild, or table",
        note="Edge weights are not part of the serialised form. Table cells of momenta are compared "
             "as printed to three digits.",
    ),
})

REGISTRY.update({
    "C06": dict(
        trace="T_C06", mc=[dict(module="MC_Queries", cfg="MC_Queries", thorough="MC_Queries_deep", workers=2)],
        kinds=("mask", "status", "hard", "prop", "name"),
        rule="every property of every code of the reference table, every unique name, every code sequence "
             "of up to 2 (thorough: 4) with targets from a four-letter alphabet (from TLC), and random "
             "arrays of up to 120; an event is one query",
        assumptions=["the reference particle table is the one shipped with mcpid, read independently"],
    ),
})

_KIN = [dict(module="MC_Kin", cfg="MC_Kin", thorough="MC_Kin_deep", workers=2)]
REGISTRY.update({
    "C07": dict(
        trace="T_C07", mc=_KIN, kinds=("kin",),
        rule="every momentum with small whole components (from TLC) and random ones of up to forty bits in "
             "units of 2^-1000..2^1000, light-like, space-like, beam-parallel and null ones included; an event "
             "is one object with its history of requests, in any order, fresh, sliced, copied or replaced",
        assumptions=["components are whole numbers of a common power of two",
                     "nothing is asked within a factor of ten of the stated tolerance of 1e-10"],
    ),
})
REGISTRY.update({
    "C08": dict(
        trace="T_C08", mc=[dict(module="MC_Boost", cfg="MC_Boost", thorough="MC_Boost_deep", workers=2)],
        kinds=("walk", "phi", "rap", "eta", "exp"),
        rule="every sequence of three (thorough: five) lattice shifts of two particles (from TLC) and random "
             "chains of up to three shifts from 2^-36 to 300, scalar or per particle, of up to seven random momenta; an event "
             "is one chain",
        note="Per-particle shifts of the pseudorapidity are decided in the experimental mode only: "
             "the true boost is a boost of all particles by one amount.",
        assumptions=["the summed momentum is within |eta| < 3.7 and physical when its pseudorapidity is shifted"],
    ),
})
REGISTRY.update({
    "C09": dict(
        trace="T_C09", mc=[dict(module="MC_Distance", cfg="MC_Distance", thorough="MC_Distance_deep", workers=2)],
        kinds=("dist",),
        rule="every pair of a lattice of directions (from TLC) and random sets of up to twenty particles, "
             "beam-parallel ones and ones at rest included, under one to four threads; an event is a pair of "
             "sets with up to five calls, some of which are refused or fail",
        assumptions=["distances are decided to 2e-7; directions have |eta| <= 8 or are parallel to the beam"],
    ),
})
REGISTRY.update({
    "C22": dict(
        trace="T_C22", mc=[dict(module="MC_Aggregates", cfg="MC_Aggregates", thorough="MC_Aggregates_deep", workers=2)],
        kinds=("aggregate", "resultant", "mass", "centroid", "prune", "own"),
        rule="every pair of groups of four (thorough: six) particles (from TLC) and random sets of up to "
             "fourteen particles with groups, weights, centres and radii; an event is one call",
        assumptions=["momenta are whole numbers of a common power of two, or given by pt, eta and phi",
                     "nothing is asked of particles within 1e-6 of the pruning radius"],
    ),
})
REGISTRY.update({
    "C19": dict(
        trace="T_C19", mc=[dict(module="MC_Rotation", cfg="MC_Rotation", thorough="MC_Rotation_deep", workers=4)],
        kinds=("matrix", "split", "axis", "hardest"),
        rule="every rational rotation about five axes (thorough: every chain of two; from TLC) and random "
             "angles, axes, fractions and sets of up to twelve momenta with the hardest anywhere; an event is one call",
        assumptions=["momenta are whole numbers of a common power of two, up to 10^5 of them",
                     "rotations are decided to 1e-9, conservation to 1e-13 of the size of the parent"],
    ),
})
REGISTRY.update({
    "C20": dict(
        trace="T_C20", mc=[dict(module="MC_Shapes", cfg="MC_Shapes", thorough="MC_Shapes_deep", workers=4)],
        kinds=("cpar", "thrust", "sphero"),
        rule="every sequence of up to three (thorough: four) momenta of whole length with its exact C-parameter "
             "(from TLC) and random sets of up to ten momenta of sizes 2^-60 to 2^60, pencils, jets, copies and null momenta included, "
             "with random seeds; an event is one set, with four calls for thrust and spherocity",
        assumptions=["the reported axis is a local optimum: turning it by 10^-3 improves the value by at most 2e-4",
                     "optimality is not asked within cos = 0.99 of the beam, the pole of the angles the optimiser "
                     "works in, nor of thrust where a momentum is perpendicular to the axis"],
    ),
})
REGISTRY.update({
    "C21": dict(
        trace="T_C21", mc=[dict(module="MC_Affinity", cfg="MC_Affinity", thorough="MC_Affinity_deep", workers=4)],
        kinds=("cut", "knn", "full", "cluster"),
        rule="every matrix of three particles over two (thorough: three) affinities and every set of up to three "
             "(four) lattice points (from TLC), random matrices of up to eight particles, tied, infinite and "
             "negative affinities included, in any memory layout, and random sets of up to thirteen particles "
             "under one to four threads; an event is one call",
        assumptions=["affinities are whole numbers of a power of two, or infinite",
                     "nothing is asked of a set where some pair is within 1e-6 of the radius"],
    ),
})
REGISTRY.update({
    "C18": dict(
        trace="T_C18", mc=[dict(module="MC_Assign", cfg="MC_Assign", thorough="MC_Assign_deep", workers=4)],
        kinds=("close", "tag"),
        rule="every set of up to two (thorough: three) foci and three (four) candidates of a lattice (from TLC), "
             "random sets of up to six foci and ten candidates, crowded ones and ones without spread included, and "
             "random events tagged with random clusters under every filter; an event is one set, with calls under "
             "up to four threads, or one tagging",
        assumptions=["no fewer candidates than foci; every focus and candidate has a direction",
                     "the optimum is not asked where candidates differ by less than 0.01 in distance or transverse momentum"],
    ),
})
REGISTRY.update({
    "C17": dict(
        trace="T_C17", mc=[dict(module="MC_Jets", cfg="MC_Jets", thorough="MC_Jets_deep", workers=4)],
        kinds=("jets",),
        rule="every sequence of up to three (thorough: four) particles of a lattice (from TLC) and random sets of up "
             "to thirty (sixty) particles, massive, equal and beam-parallel ones included, for fourteen powers and "
             "any radius, each clustered without cuts and then with up to four sets of cuts, some invalid; an "
             "event is one set",
        assumptions=["the radius is positive; no particle is at rest",
                     "the jets are not compared with the algorithm where two distances agree to four digits, "
                     "nor cuts where a jet is within 1e-5 of one"],
    ),
})
REGISTRY.update({
    "C25": dict(
        trace="T_C25", mc=[dict(module="MC_Sample", cfg="MC_Sample", thorough="MC_Sample_deep", workers=2)],
        kinds=("draw", "many"), min_chunk=4,
        rule="every small request (from TLC) and random requests of up to sixty momenta, each checked one by one, "
             "drawn again, with another seed and with none, some with invalid probabilities; and large draws of up "
             "to 20000 (thorough: 60000) momenta, whose frequencies are tested by Bernstein's inequality; an event is one request",
        assumptions=["frequencies are decided to within sqrt(70 n a (1 - a)) + 24 of n a draws"],
    ),
})
REGISTRY.update({
    "C03": dict(
        trace="T_C03", mc=[dict(module="MC_Store", cfg="MC_Store", thorough="MC_Store_deep", workers=4)],
        kinds=("hist",),
        rule="histories of up to four operations of the model of objects with memory and caches (from TLC) on each of "
             "the ten public types, and random histories of up to 32 (thorough: 60) calls out of some 250 kinds on "
             "pools of momenta, columns, masks, graphs, matrices and events, with in-place operations, failing "
             "calls, copies, and earlier calls repeated on the same and on rebuilt objects; an event is one history",
        assumptions=["objects which share the memory of one modified in place (views of it) are not asked again",
                     "answers are compared up to a relative 1e-7; thrust and spherocity are given a seed"],
    ),
})
