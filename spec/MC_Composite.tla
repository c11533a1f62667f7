---------------------------- MODULE MC_Composite ----------------------------
(* Design model of C05 and C23: an event with any set of columns present,  *)
(* selected by any key and then by another one, as a transition system.    *)
EXTENDS CompositeModel, Json
CONSTANTS N, MaxKey, Steps
VARIABLES cols, rows, path

Fields == {"pdg", "pmu", "color", "final", "edges"}
Keys(n) == UNION {[1..k -> 1..n] : k \in 0..(IF n = 0 THEN 0 ELSE MaxKey)}
Init ==
    /\ \E P \in SUBSET Fields :
         cols = [f \in Fields |-> IF f \in P THEN [i \in 1..N |-> <<f, i>>] ELSE <<>>]
    /\ rows = [i \in 1..N |-> i]
    /\ path = <<>>
Next ==
    /\ Len(path) < Steps
    /\ \E key \in Keys(Len(rows)) :
         /\ cols' = SelectRows(cols, key)
         /\ rows' = ComposeKeys(rows, key)
         /\ path' = Append(path, key)
Spec == Init /\ [][Next]_<<cols, rows, path>>

AlwaysAligned == Aligned(cols)
(* Each column holds exactly the chosen rows, whatever the path.           *)
Chosen == \A f \in Fields : Present(cols, f) =>
    /\ Len(cols[f]) = Len(rows)
    /\ \A i \in Idx(rows) : cols[f][i] = <<f, rows[i]>>
AbsentStays == [][\A f \in Fields : cols[f] = <<>> => cols'[f] = <<>>]_<<cols, rows, path>>
LengthIs == Truth(cols) => Length(cols) = Len(rows)
Emit == Len(path) = Steps =>
    PrintT("CASE " \o ToJson([present |-> SetToSeq({f \in Fields : Present(cols, f)}), path |-> path]))
=============================================================================
