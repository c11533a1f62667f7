------------------------------ MODULE MC_Colors -----------------------------
(* Every assignment of up to two colour lines to N partons.                *)
EXTENDS ColorLines, Json
CONSTANTS N, Lines
VARIABLE c
Init == c \in [1..N -> (Lines \X Lines)]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Ps == [i \in 1..N |-> [name |-> "p" \o ToString(i), c |-> c[i][1], a |-> c[i][2]]]
(* Conjugating all colours changes no grouping; permuting the partons      *)
(* permutes them; outcasts and members share nothing and cover all.        *)
Conj(ps) == [i \in Idx(ps) |-> [ps[i] EXCEPT !.c = ps[i].a, !.a = ps[i].c]]
AsSets(gs) == {Range0(gs[i]) : i \in Idx(gs)}
Laws ==
    LET S == Singlets(Ps)
        members == UNION AsSets(S)
    IN  /\ Singlets(Conj(Ps)) = S
        /\ AsSets(Singlets(Reverse(Ps))) = AsSets(S)
        /\ members \cap Outcasts(Ps) = {}
        /\ members \cup Outcasts(Ps) = {p.name : p \in Range0(Coloured(Ps))}
        /\ Cardinality(AsSets(S)) = Len(S)
Emit == PrintT("CASE " \o ToJson([k |-> "singlets", ps |-> Ps]))
=============================================================================
