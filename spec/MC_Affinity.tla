----------------------------- MODULE MC_Affinity ------------------------------
(* Every matrix of three (deep: a row of more) small affinities: cuts on   *)
(* the two sides partition the entries off the cut, the nearest k are      *)
(* among the nearest k + 1, all neighbours give the full graph; and every  *)
(* small set of lattice points: coefficients lie in [0, 1], do not depend  *)
(* on the order of particles, and are one in a clique. Matrices and points *)
(* are replayed in the real code.                                          *)
EXTENDS Affinity, Json
CONSTANTS N, Values, Rows, Most, Emit
VARIABLES m, ps

Init == /\ m = <<>> /\ ps = <<>>
Grow == /\ ps = <<>> /\ Len(m) < Rows
        /\ \E r \in [1..N -> Values]: m' = Append(m, r)
        /\ UNCHANGED ps
        /\ (Emit /\ Len(m') = N) => PrintT("CASE " \o ToJson([m |-> m']))
Lattice == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 7>>, <<-1, 1>>, <<3, 4>>}
Place == /\ m = <<>> /\ Len(ps) < Most
         /\ \E p \in Lattice: ps' = Append(ps, p)
         /\ UNCHANGED m
         /\ Emit => PrintT("CASE " \o ToJson([points |-> ps']))
Next == Grow \/ Place
Spec == Init /\ [][Next]_<<m, ps>>

Row(i) == m[i]
Ranked == \A i \in DOMAIN m, k \in 0..(N - 1):
    /\ NearestSets(m[i], 1..N, k) # {}
    /\ \A S \in NearestSets(m[i], 1..N, k): \E T \in NearestSets(m[i], 1..N, k + 1): S \subseteq T
    /\ NearestSets(m[i], 1..N, N) = {1..N}
    /\ \A S, T \in NearestSets(m[i], 1..N, k): {m[i][a]: a \in S \ T} = {m[i][a]: a \in T \ S} \/ S = T
Partition == Len(m) = N => \A cut \in Values:
    LET below == CutGraph(m, cut, "max", FALSE, FALSE)
        above == CutGraph(m, cut, "min", FALSE, FALSE)
    IN  \A i, j \in 1..N: below[i][j] + above[i][j] = (IF i = j \/ m[i][j] = cut THEN 0 ELSE 1)
FullIsAll == Len(m) = N => KnnOk(m, N - 1, FALSE, FALSE, TRUE, FullGraph(N, FALSE)) /\ KnnOk(m, N, TRUE, FALSE, FALSE, FullGraph(N, TRUE))

(* Lattice steps of 0.5 in rapidity and an eighth of a turn in azimuth.    *)
At(p) == [rap |-> B(p[1] * 50000000), phi |-> B(p[2] * 78539816)]
Points == [i \in DOMAIN ps |-> At(ps[i])]
Reaches == {60000000, 90000000, 160000000}
Bounded == \A r \in Reaches: LET L == Linked(Points, B(r)) IN
    /\ \A l \in L: <<l[2], l[1]>> \in L
    /\ \A i \in DOMAIN ps: LET c == Coefficient(L, i) IN c[1] <= c[2]
    /\ (\A i, j \in DOMAIN ps: i # j => <<i, j>> \in L) => \A i \in DOMAIN ps: LET c == Coefficient(L, i) IN c[1] = c[2]
Turned == \A r \in Reaches: LET back == [i \in DOMAIN ps |-> Points[Len(ps) + 1 - i]] IN
    \A i \in DOMAIN ps: Coefficient(Linked(Points, B(r)), i) = Coefficient(Linked(back, B(r)), Len(ps) + 1 - i)
=============================================================================
