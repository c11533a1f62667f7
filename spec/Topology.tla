------------------------------ MODULE Topology ------------------------------
(* Event topology: a directed multigraph given as a sequence of edges      *)
(* <<src, dst>> over integer vertex labels, and what each view of it is.   *)
EXTENDS Common

Src(E, i) == E[i][1]
Dst(E, i) == E[i][2]
Sources(E) == {Src(E, i) : i \in Idx(E)}
Targets(E) == {Dst(E, i) : i \in Idx(E)}
Vertices(E) == Sources(E) \cup Targets(E)
Ordered(E) == Ascending(Vertices(E))
Leaving(E, v) == {i \in Idx(E) : Src(E, i) = v}
Entering(E, v) == {i \in Idx(E) : Dst(E, i) = v}

(* Edges from vertices nothing enters, and to vertices nothing leaves.     *)
RootEdges(E) == LET T == Targets(E) IN {i \in Idx(E) : Src(E, i) \notin T}
LeafEdges(E) == LET S == Sources(E) IN {i \in Idx(E) : Dst(E, i) \notin S}

(* Dense matrix over the vertices in ascending order of label: w[i] is     *)
(* what edge i contributes.                                                *)
Position(V, x) == CHOOSE p \in Idx(V) : V[p] = x
Cells(E) == LET V == Ordered(E)
            IN  [i \in Idx(E) |-> <<Position(V, Src(E, i)), Position(V, Dst(E, i))>>]
Matrix(E, w) ==
    LET n == Cardinality(Vertices(E))
        C == Cells(E)
        used == Range0(C)
        total(c) == SumOver({i \in Idx(E) : C[i] = c}, LAMBDA i : w[i])
        tab == [c \in used |-> total(c)]
    IN  [r \in 1..n |-> [c \in 1..n |-> IF <<r, c>> \in used THEN tab[<<r, c>>] ELSE 0]]
Ones(E) == [i \in Idx(E) |-> 1]

(* Vertices reachable along edges from the set S, S included.              *)
RECURSIVE Reach(_, _)
Reach(E, S) ==
    LET T == S \cup {Dst(E, i) : i \in {j \in Idx(E) : Src(E, j) \in S}}
    IN  IF T = S THEN S ELSE Reach(E, T)
Descendants(E, v) ==
    IF Leaving(E, v) = {} THEN Entering(E, v)
    ELSE LET R == Reach(E, {v}) IN {i \in Idx(E) : Src(E, i) \in R}
EdgeDescendants(E, e) ==
    Descendants(E, e[2]) \cup {i \in Idx(E) : E[i] = e}
Acyclic(E) == \A v \in Vertices(E) :
    v \notin Reach(E, {Dst(E, i) : i \in Leaving(E, v)})

(* Vertices at which all the wanted codes arrive and leave.                *)
CodesIn(E, pdg, v) == {pdg[i] : i \in Entering(E, v)}
CodesOut(E, pdg, v) == {pdg[i] : i \in Leaving(E, v)}
Matching(E, pdg, in, out) ==
    {v \in Vertices(E) : in \subseteq CodesIn(E, pdg, v) /\ out \subseteq CodesOut(E, pdg, v)}
HadronVertices(E, status) ==
    {Src(E, i) : i \in {j \in Idx(E) : Within(Abs(status[j]), 80, 90)}}
=============================================================================
