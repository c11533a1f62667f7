--------------------------- MODULE CompositeModel ---------------------------
(* Particle sets and events: aligned columns, each present for every       *)
(* particle or absent (empty).  A column is a sequence of rows (tokens).   *)
EXTENDS Common

SetFields == <<"pdg", "pmu", "color", "helicity", "status", "final">>
EventFields == SetFields \o <<"edges", "weights">>
Present(cols, f) == cols[f] # <<>>
Length(cols) ==
    LET ps == {f \in DOMAIN cols : Present(cols, f)} IN
    IF ps = {} THEN 0 ELSE Len(cols[CHOOSE f \in ps : TRUE])
Aligned(cols) ==
    \A f, g \in DOMAIN cols : Present(cols, f) /\ Present(cols, g) => Len(cols[f]) = Len(cols[g])
Truth(cols) == Length(cols) > 0

(* Selection of rows, in the order of the key, by every present column.    *)
SelectRows(cols, idx) ==
    [f \in DOMAIN cols |-> IF Present(cols, f) THEN Take(cols[f], idx) ELSE <<>>]
Kept(mask) == Ascending(TrueSet(mask))
ComposeKeys(first, second) == Take(first, second)

Same(got, want) == \A f \in DOMAIN want : got[f] = want[f]
Wrong(got, want) == {f \in DOMAIN want : got[f] # want[f]}
=============================================================================
