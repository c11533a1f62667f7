------------------------------ MODULE ColorLines ----------------------------
(* C16: groupings of partons into colour singlets.  A parton is a record   *)
(* name, c (colour) and a (anticolour), in the order of the leaves.        *)
EXTENDS Common

Coloured(ps) == SelectSeq(ps, LAMBDA p : p.c # 0 \/ p.a # 0)
Balanced(ps, S) == {ps[i].c : i \in S} = {ps[i].a : i \in S}
Groups(ps) ==
    LET n == Len(ps)
        two == {s \in [1..2 -> 1..n] : s[1] < s[2]}
        three == {s \in [1..3 -> 1..n] : s[1] < s[2] /\ s[2] < s[3]}
    IN  {s \in two \cup three : Balanced(ps, Range0(s))}
(* Pairs first, then triples, each in the order of the leaves.             *)
Earlier(s, t) ==
    \/ Len(s) < Len(t)
    \/ Len(s) = Len(t) /\ \E i \in Idx(s) :
          s[i] < t[i] /\ \A j \in 1..(i - 1) : s[j] = t[j]
GroupSeq(ps) == SetToSortSeq(Groups(ps), Earlier)
Names(ps, s) == [i \in Idx(s) |-> ps[s[i]].name]
Singlets(all) ==
    LET ps == Coloured(all) G == GroupSeq(ps)
    IN  [j \in Idx(G) |-> Names(ps, G[j])]
Outcasts(all) ==
    LET ps == Coloured(all)
        inside == UNION {Range0(s) : s \in Groups(ps)}
    IN  {ps[i].name : i \in (1..Len(ps)) \ inside}
=============================================================================
