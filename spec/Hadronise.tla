------------------------------ MODULE Hadronise -----------------------------
(* C14: assignment of shared hadrons to the nearest parton, and clusters.  *)
(* Events carry lattice momenta lat and colours color, anticolor.          *)
EXTENDS HardProcess, Angular, ColorLines

Finals(ev) == {i \in 1..EvSize(ev) : ev.final[i]}
(* Hadronisation vertices fed by at least one of the particles in S.       *)
Fed(ev, S) == {v \in HadronVertices(ev.E, ev.status) : Entering(ev.E, v) \cap S # {}}
Products(ev, v) == Descendants(ev.E, v) \cap Finals(ev)

(* Incoming partons nearest to a hadron: those within 1% by the coarse     *)
(* distance and, among these, those which the fine one cannot tell apart.  *)
Nearest(ev, v, h, power) ==
    LET In == Entering(ev.E, v)
        d == TLCEval([p \in In |-> Weighted2(power, ev.lat[p], ev.lat[h])])
        least == MinOf({d[p] : p \in In})
        C == {p \in In : d[p] - least <= least \div 100 + 20}
        F == TLCEval(FineLeast({ev.lat[p] : p \in C}, power, ev.lat[h]))
    IN  IF Cardinality(C) = 1 THEN C ELSE {p \in C : ev.lat[p] \in F}

(* Where everything in the tree is kept except what partitioning decides.  *)
RECURSIVE Paths(_, _)
Paths(g, prefix) ==
    IF g.t # "g" THEN {prefix}
    ELSE UNION {Paths(g.kids[i], Append(prefix, i)) : i \in Idx(g.kids)}
RECURSIVE At(_, _)
At(g, path) == IF path = <<>> THEN g ELSE At(g.kids[Head(path)], Tail(path))
RECURSIVE LabelAt(_, _)
LabelAt(g, path) == IF Len(path) = 1 THEN g.names[path[1]] ELSE LabelAt(g.kids[Head(path)], Tail(path))
RECURSIVE Skeleton(_)
Skeleton(g) ==
    IF g.t # "g" THEN <<g.t, Len(g.b)>>
    ELSE <<g.op, g.names, [i \in Idx(g.kids) |-> Skeleton(g.kids[i])]>>

PartBad(e) ==
    LET ev == e.ev
        P == Paths(e.tree, <<>>)
        leaf == {p \in P : LabelAt(e.tree, p) # "latent"}
        was == TLCEval([p \in P |-> TrueSet(At(e.tree, p).b)])
        V == Fed(ev, UNION {was[p] : p \in P})
        shared == UNION {Products(ev, v) : v \in V}
    IN  IF ~e.r.ok THEN {"refused"}
        ELSE IF Skeleton(e.r.v) # Skeleton(e.tree) THEN {"tree-shape"}
        ELSE LET now == TLCEval([p \in P |-> TrueSet(At(e.r.v, p).b)]) IN
             Failing({
               <<"other-membership", \A p \in P : p \notin leaf \/
                   was[p] \ shared = now[p] \ shared>>,
               <<"remainder-changed", \A p \in P \ leaf : was[p] = now[p]>>,
               <<"nearest-parton", \A v \in V : \A h \in Products(ev, v) :
                   \E q \in Nearest(ev, v, h, e.power) :
                       \A p \in leaf : (h \in now[p]) = (q \in was[p])>>,
               <<"input-changed", e.same>>})

(* Clusters: leaves after partitioning with power -1/10, cut, final only.  *)
ClusterBad(e) ==
    LET ev == e.ev
        F == Families(ev)
        N == HardNames(ev)
        B == Bottoms(F)
        fin == Ascending(Finals(ev))
        S == UNION {F[p] : p \in DOMAIN F}
        V == Fed(ev, S)
        shared == UNION {Products(ev, v) : v \in V}
        seq == Ascending(B)
        out == Outcasts([j \in Idx(seq) |-> [name |-> seq[j], c |-> ev.color[seq[j]],
                                            a |-> ev.anticolor[seq[j]]]])
        g == e.r.v
        got == TLCEval([p \in DOMAIN F |-> LET b == ItemOf(g, N[p]).b IN
                    {fin[j] : j \in {x \in 1..Len(b) : b[x]}}])
        Within2(p, h) == R2(ev.lat[p], ev.lat[h])
        Close(p, h) == Abs(Within2(p, h) - e.r2) <= e.r2 \div 100 + 2
        Edge(p, h) == Close(p, h) /\ FineEdge(FineR2(ev.lat[p], ev.lat[h]), e.radius2)
        Inside(p, h) == IF Close(p, h) THEN FineBelow(FineR2(ev.lat[p], ev.lat[h]), e.radius2)
                        ELSE Within2(p, h) < e.r2
        Keep(p, h, base) == base /\ (p \notin out \/ Inside(p, h))
        Fits(p, h, base) == (Edge(p, h) /\ p \in out /\ base) \/ (h \in got[p]) = Keep(p, h, base)
        Below(p) == {b \in B : b = p \/ b \in F[p]}
    IN  IF ~e.r.ok THEN {"clusters-refused"}
        ELSE IF g.t # "g" \/ Range0(g.names) # {N[p] : p \in DOMAIN F} \/ ~NoRepeats(g.names)
             THEN {"cluster-names"}
        ELSE IF \E i \in Idx(g.kids) : g.kids[i].t # "m" \/ Len(g.kids[i].b) # Len(fin)
             THEN {"cluster-length"}
        ELSE Failing({
               <<"cluster-own", \A p \in B : \A h \in Finals(ev) \ shared :
                    Fits(p, h, h \in F[p])>>,
               <<"cluster-shared", \A v \in V : \A h \in Products(ev, v) :
                    \E q \in Nearest(ev, v, h, 3) : \A p \in B : Fits(p, h, q \in F[p])>>,
               <<"cluster-ancestors", \A p \in (DOMAIN F) \ B :
                    got[p] = UNION {got[b] : b \in Below(p)}>>,
               <<"event-changed", e.same>>})

(* Weighted distances themselves, in units of 10^-15.                      *)
DistBad(e) ==
    IF ~e.r.ok THEN {"distance-refused"}
    ELSE IF Len(e.r.v) # Len(e.p) \/ \E i \in Idx(e.r.v) : Len(e.r.v[i]) # Len(e.h)
         THEN {"distance-shape"}
    ELSE Failing({<<"distance", \A i \in Idx(e.p), j \in Idx(e.h) :
            e.r.v[i][j].c = "fin" /\ FineIs(e.r.v[i][j].v, e.power, e.p[i], e.h[j])>>})

Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k = "part" -> PartBad(e)
       [] e.k = "clusters" -> ClusterBad(e)
       [] e.k = "dist" -> DistBad(e)
       [] OTHER -> {})
=============================================================================
