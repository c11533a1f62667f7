----------------------------- MODULE MC_Assign ------------------------------
(* Every small matrix of costs: the layered minimum is that over all       *)
(* assignments, does not depend on the order of candidates, follows a      *)
(* constant added to a row, and never rises with one more candidate; the   *)
(* exponential obeys its laws; and every small set of foci and candidates  *)
(* on a lattice, replayed in the real code.                                *)
EXTENDS Assignment, Json
CONSTANTS M, Values, Rows, MostF, MostC, Emit
VARIABLES C, fs, cs

Init == C = <<>> /\ fs = <<>> /\ cs = <<>>
Grow == /\ cs = <<>> /\ fs = <<>> /\ Len(C) < Rows
        /\ \E r \in [1..M -> Values]: C' = Append(C, r)
        /\ UNCHANGED <<fs, cs>>
(* [steps of rapidity, steps of azimuth, transverse momentum]              *)
Lattice == {<<0, 0, 1>>, <<1, 0, 1>>, <<0, 7, 2>>, <<2, 1, 1>>}
Place == /\ C = <<>>
         /\ \/ /\ cs = <<>> /\ Len(fs) < MostF
               /\ \E p \in Lattice: fs' = Append(fs, p)
               /\ UNCHANGED <<C, cs>>
            \/ /\ fs # <<>> /\ Len(cs) < MostC
               /\ \E p \in Lattice: cs' = Append(cs, p)
               /\ UNCHANGED <<C, fs>>
         /\ (Emit /\ cs' # <<>> /\ Len(fs') <= Len(cs')) => PrintT("CASE " \o ToJson([f |-> fs', c |-> cs']))
Next == Grow \/ Place
Spec == Init /\ [][Next]_<<C, fs, cs>>

Assignments(n, m) == {a \in [1..n -> 1..m]: \A i, j \in 1..n: i # j => a[i] # a[j]}
Total(a, c) == SumSeq([i \in DOMAIN a |-> c[i][a[i]]])
Brute(c, m) == MinOf({Total(a, c): a \in Assignments(Len(c), m)})
Minimal == Len(C) <= M => Cheapest(C, M) = Brute(C, M)
Unordered == Len(C) <= M =>
    /\ Cheapest([i \in DOMAIN C |-> [j \in 1..M |-> C[i][M + 1 - j]]], M) = Cheapest(C, M)
    /\ Cheapest([i \in DOMAIN C |-> C[Len(C) + 1 - i]], M) = Cheapest(C, M)
Shifted == Len(C) <= M => \A k \in DOMAIN C:
    Cheapest([i \in DOMAIN C |-> [j \in 1..M |-> C[i][j] + (IF i = k THEN 5 ELSE 0)]], M) = Cheapest(C, M) + 5
Fewer == Len(C) < M =>
    Cheapest(C, M) <= Cheapest([i \in DOMAIN C |-> SubSeq(C[i], 1, M - 1)], M - 1)

Logs == {0, 1, 1000000, 693147181, 250000000, 1386294361, 2000000000}
Exponential ==
    /\ ExpNeg(Zero) = One16
    /\ NearB(ExpNeg(B(693147181)), Mul(B(5), Ten(15)), Ten(7))
    /\ NearB(ExpNeg(Mul(B(36), B(693147181))), Drop(Mul(B(145519152), Ten(1)), 1), B(100000))
    /\ ExpNeg(Mul(B(41), Ten(9))) = Zero
    /\ \A a, b \in Logs:
         /\ NearB(ExpNeg(Add(B(a), B(b))), Drop(Mul(ExpNeg(B(a)), ExpNeg(B(b))), 4), B(10000))
         /\ a < b => Lt(ExpNeg(B(b)), ExpNeg(B(a)))
    /\ Price(Zero) = 0 /\ Near(Price(B(693147181)), 50000000, 1)
ExpLaws == (C = <<>> /\ fs = <<>>) => Exponential
=============================================================================
