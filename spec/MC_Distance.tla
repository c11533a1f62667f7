----------------------------- MODULE MC_Distance ----------------------------
(* Geometry: on a lattice of points the distance is symmetric, zero only   *)
(* between equal directions, never beyond half a turn in azimuth, and      *)
(* obeys the triangle inequality. Threads: calls which nest, succeed, fail *)
(* inside or are refused on entry leave the number of threads as it was.   *)
(* Every pair of points is replayed in the real code.                      *)
EXTENDS Distance, Json
CONSTANTS Etas, Phis, Emit, MaxDepth
SmallEtas == {-99, -1, 0, 99}
SmallPhis == {-7, 0, 1, 8}
DeepEtas == {-99, -3, 0, 1, 99}
DeepPhis == {-7, -4, -1, 0, 3, 8}
VARIABLES a, b, threads, stack

E(n) == IF n = 99 THEN [c |-> "+inf", v |-> Zero] ELSE IF n = -99 THEN [c |-> "-inf", v |-> Zero]
        ELSE Fin(n * 50000000)
F(n) == [c |-> "fin", v |-> B(n * 39269908)]      \* n pi / 8
Points == {<<n, m>>: n \in Etas, m \in Phis}
P(p) == [eta |-> E(p[1]), rap |-> E(p[1]), phi |-> IF p[1] \in {99, -99} THEN [c |-> "none", v |-> Zero] ELSE F(p[2])]
Init == /\ a \in Points /\ b \in Points /\ threads = 3 /\ stack = <<>>
        /\ Emit => PrintT("CASE " \o ToJson([a |-> a, b |-> b]))

Enter(n) == /\ Len(stack) < MaxDepth
            /\ IF n \in 1..4 THEN stack' = Append(stack, threads) /\ threads' = n
               ELSE UNCHANGED <<stack, threads>>       \* refused
Leave == /\ stack # <<>>                               \* returned or failed
         /\ threads' = stack[Len(stack)] /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
Next == ((\E n \in {0, 1, 4, 5}: Enter(n)) \/ Leave) /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b, threads, stack>>

Restored == stack = <<>> => threads = 3
Geometry ==
    LET pa == P(a)
        pb == P(b)
        d == IF HasDPhi(pa, pb) THEN DPhi(pa, pb) ELSE Zero
    IN  /\ DRap(pa.eta, pb.eta) = DRap(pb.eta, pa.eta)
        /\ HasDPhi(pa, pb) => (DPhi(pa, pb) = DPhi(pb, pa) /\ Leq(d, Half1))
        /\ (HasDPhi(pa, pb) /\ a[1] = b[1]) => (Leq(d, B(16)) <=> (a[2] - b[2]) % 16 = 0)
Triangle == \A c \in Points:
    LET pa == P(a)  pb == P(b)  pc == P(c) IN
    (HasDPhi(pa, pb) /\ HasDPhi(pb, pc)) => Leq(DPhi(pa, pc), Add(Add(DPhi(pa, pb), DPhi(pb, pc)), B(16)))
=============================================================================
