------------------------------ MODULE Affinity ------------------------------
(* C21: graphs from matrices of affinities, and clustering coefficients.   *)
(* Affinities are whole numbers; Inf and -Inf stand for the infinities.    *)
(* A graph is a matrix of weights, 0 where there is no edge.               *)
EXTENDS Big, Common

Inf == 1000000000
Nodes(m) == DOMAIN m
Square(r, n) == Len(r) = n /\ \A i \in 1..n: Len(r[i]) = n

(* Entries strictly on the asked side of the cut.                          *)
Kept(x, cut, mode) == IF mode = "max" THEN x < cut ELSE x > cut
CutGraph(m, cut, mode, self, weighted) ==
    [i \in Nodes(m) |-> [j \in Nodes(m) |->
        IF i = j THEN (IF self THEN 1 ELSE 0)
        ELSE IF Kept(m[i][j], cut, mode) THEN (IF weighted THEN m[i][j] ELSE 1) ELSE 0]]

(* All ways to choose the k nearest of the candidates in a row.            *)
NearestSets(row, cand, k) == {S \in SUBSET cand: Cardinality(S) = k /\ \A a \in S, b \in cand \ S: row[a] <= row[b]}
Edges(row, S, self, i, weighted) ==
    [j \in DOMAIN row |-> IF j \in S THEN (IF weighted THEN row[j] ELSE 1) ELSE 0]
Candidates(m, i, self) == IF self THEN Nodes(m) ELSE Nodes(m) \ {i}
KnnRow(m, k, i, self, weighted, got) ==
    \E S \in NearestSets(m[i], Candidates(m, i, self), k): got = Edges(m[i], S, self, i, weighted)
KnnOk(m, k, self, weighted, row, r) ==
    \A i \in Nodes(m): KnnRow(m, k, i, self, weighted, IF row THEN r[i] ELSE [j \in Nodes(m) |-> r[j][i]])

FullGraph(n, self) == [i \in 1..n |-> [j \in 1..n |-> IF i = j /\ ~self THEN 0 ELSE 1]]

GraphBad(e, good) ==
    IF e.refuse THEN (IF e.r.ok THEN {"accepted"} ELSE {})
    ELSE IF ~e.r.ok THEN {"error"}
    ELSE IF ~Square(e.r.v.m, e.n) THEN {"shape"}
    ELSE (IF good THEN {} ELSE {"edges"}) \cup (IF e.r.v.type = e.type THEN {} ELSE {"type"})
GraphGood(e) ==
    IF e.refuse \/ ~e.r.ok THEN TRUE
    ELSE IF ~Square(e.r.v.m, e.n) THEN TRUE
    ELSE CASE e.k = "cut" -> e.r.v.m = CutGraph(e.m, e.cut, e.mode, e.self, e.weighted)
           [] e.k = "knn" -> KnnOk(e.m, e.knn, e.self, e.weighted, e.row, e.r.v.m)
           [] e.k = "full" -> e.r.v.m = FullGraph(e.n, e.self)

(* Points are [rap, phi] in units of 10^-8; the radius too.                *)
Turn1 == B(628318531)
Half1 == B(314159265)
RECURSIVE Wrapped(_)
Wrapped(d) == IF Lt(Half1, d) THEN Wrapped(AbsB(Sub(Turn1, d))) ELSE d
Apart(p, q) == TLCEval(Add(Sq(Sub(p.rap, q.rap)), Sq(Wrapped(AbsB(Sub(p.phi, q.phi))))))
Within2(ps, i, j, reach) == reach[1] > 0 /\ Lt(Apart(ps[i], ps[j]), Sq(reach))
Linked(ps, reach) == {l \in (DOMAIN ps) \X (DOMAIN ps): l[1] # l[2] /\ Within2(ps, l[1], l[2], reach)}
Coefficient(links, i) ==      \* <<links among neighbours, pairs of neighbours>>, both ordered
    LET ns == {l[2]: l \in {x \in links: x[1] = i}} IN
    <<Cardinality({l \in links: l[1] \in ns /\ l[2] \in ns}), Cardinality(ns) * (Cardinality(ns) - 1)>>
ClusterBad(e) ==
    IF ~e.r.ok THEN {"error"}
    ELSE IF Len(e.r.v) # Len(e.points) THEN {"length"}
    ELSE LET near == TLCEval(Linked(e.points, Sub(e.radius, B(100))))
             far == TLCEval(Linked(e.points, Add(e.radius, B(100))))
         IN  IF near # far THEN {}             \* some pair is at the radius itself
             ELSE IF \A i \in DOMAIN e.points:
                       LET c == Coefficient(near, i) IN
                       e.r.v[i].c = "fin" /\ (IF c[2] = 0 THEN e.r.v[i].n = 0
                                              ELSE Abs(e.r.v[i].n * c[2] - 1000000 * c[1]) <= 2 * c[2])
                  THEN {} ELSE {"coefficient"}

(* Many particles in few places: e.place says where each one is. Those in  *)
(* one place are neighbours of each other.                                 *)
Crowd(e) == [p \in DOMAIN e.points |-> Cardinality({i \in DOMAIN e.place: e.place[i] = p})]
CrowdCoefficient(links, times, p) ==
    LET ps == {p} \cup {l[2]: l \in {x \in links: x[1] = p}}
        left(q) == IF q = p THEN times[p] - 1 ELSE times[q]
        all == SumOver(ps, left)
    IN  <<SumOver(ps, LAMBDA q: left(q) * (left(q) - 1))
            + SumOver({l \in links: l[1] \in ps /\ l[2] \in ps}, LAMBDA l: left(l[1]) * left(l[2])), all * (all - 1)>>
PlacesBad(e) ==
    IF ~e.r.ok THEN {"error"}
    ELSE IF Len(e.r.v) # Len(e.place) THEN {"length"}
    ELSE LET near == TLCEval(Linked(e.points, Sub(e.radius, B(100))))
             far == TLCEval(Linked(e.points, Add(e.radius, B(100))))
             times == TLCEval(Crowd(e))
             want == TLCEval([p \in DOMAIN e.points |-> CrowdCoefficient(near, times, p)])
         IN  IF near # far THEN {}
             ELSE IF \A i \in DOMAIN e.place:
                       LET c == want[e.place[i]]
                           v == e.r.v[i]
                       IN  v.c = "fin" /\ (IF c[2] = 0 THEN v.n = 0
                                           ELSE NearB(Mul(B(v.n), B(c[2])), Mul(B(1000000), B(c[1])), B(2 * c[2])))
                  THEN {} ELSE {"coefficient"}

Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k \in {"cut", "knn", "full"} -> {e.k \o "-" \o b: b \in GraphBad(e, GraphGood(e))}
       [] e.k = "cluster" -> {"cluster-" \o b: b \in ClusterBad(e)} \cup (IF e.before = e.after THEN {} ELSE {"threads"})
       [] e.k = "places" -> {"places-" \o b: b \in PlacesBad(e)} \cup (IF e.before = e.after THEN {} ELSE {"threads"})
       [] OTHER -> {})
    \cup (IF "same" \in DOMAIN e /\ ~e.same THEN {"input-changed"} ELSE {})
=============================================================================
