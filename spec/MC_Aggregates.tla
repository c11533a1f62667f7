---------------------------- MODULE MC_Aggregates ---------------------------
(* Every pair of groups of a few particles: sums over disjoint groups add  *)
(* to the sum over their union, do not depend on the order of particles,   *)
(* and cutting around a point is monotonic in the radius and idempotent.   *)
(* Each pair of groups is replayed in the real code.                       *)
EXTENDS Aggregates, Json
CONSTANTS N, Emit
VARIABLES g, h

Mom(i) == [x |-> B(((i * 7) % 11) - 5), y |-> B(((i * 5) % 7) - 3), z |-> B(i * i - 4), e |-> B(20 + i)]
Ms == [i \in 1..N |-> Mom(i)]
Point(i) == [eta |-> [c |-> "fin", v |-> B((i - 2) * 50000000)], phi |-> [c |-> "fin", v |-> B((i - 3) * 150000000)]]
Masks == [1..N -> BOOLEAN]
Init == /\ g \in Masks /\ h = [i \in 1..N |-> FALSE]
Add1(i) == ~h[i] /\ (\A j \in i..N: ~h[j]) /\ h' = [h EXCEPT ![i] = TRUE] /\ UNCHANGED g
Next == (\E i \in 1..N: Add1(i)) /\ (Emit => PrintT("CASE " \o ToJson([masks |-> <<g, h'>>])))
Spec == Init /\ [][Next]_<<g, h>>

Or(a, b) == [i \in 1..N |-> a[i] \/ b[i]]
And(a, b) == [i \in 1..N |-> a[i] /\ b[i]]
GroupSum(m) == SumM(Selected(Ms, m))
Inclusion == AddM(GroupSum(g), GroupSum(h)) = AddM(GroupSum(Or(g, h)), GroupSum(And(g, h)))
Reversed(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
OrderFree == SumM(Reversed(Selected(Ms, g))) = GroupSum(g)
Kept(m, radius) == [i \in 1..N |-> m[i] /\ Sides(Point(i), [eta |-> Zero, phi |-> B(300000000)], radius) = {TRUE}]
Monotonic == \A r \in {10000000, 120000000, 300000000}:
    LET k == Kept(g, B(r)) IN
    /\ Kept(k, B(r)) = k
    /\ \A i \in 1..N: k[i] => (g[i] /\ Kept(g, B(r + 50000000))[i])
=============================================================================
