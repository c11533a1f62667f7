------------------------------ MODULE MC_Event ------------------------------
(* Every hard process of up to MaxHard partons: any forest below the hard  *)
(* vertex, any assignment of the outgoing partons to two hadronisation     *)
(* vertices, with background entering one of them or not.  The nesting     *)
(* the specification derives from reachability must be the one the event   *)
(* was generated from.  Events are printed for replay.                     *)
EXTENDS HardProcess
CONSTANTS MaxHard, Emitting
VARIABLE c

Parents(n) == {f \in [1..n -> 0..(n - 1)] : \A i \in 1..n : f[i] < i}
Leafs(f) == {i \in DOMAIN f : \A j \in DOMAIN f : f[j] # i}
Shapes == UNION {{[par |-> f, fed |-> h, bg |-> b, rev |-> r] :
                    f \in Parents(n), h \in [1..n -> {0, 1}], b \in BOOLEAN, r \in BOOLEAN} :
                 n \in 1..MaxHard}
Init == c \in {s \in Shapes : \A i \in DOMAIN s.par : i \in Leafs(s.par) \/ s.fed[i] = 0}
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

(* The event of a shape.  Row: <<pdg, status, src, dst, final>>.           *)
HardCode(s, i) == IF i \in Leafs(s.par) THEN <<5, -5, 1, 5, 2>>[i]
                  ELSE <<6, 24, 6, 23, 24>>[i]
OutVtx(i) == -(i + 2)
Hard(s) ==
    [i \in DOMAIN s.par |->
        <<HardCode(s, i), IF i \in Leafs(s.par) THEN -23 ELSE -22,
          IF s.par[i] = 0 THEN -2 ELSE OutVtx(s.par[i]), OutVtx(i), FALSE>>]
HadVtx(x) == -20 - x
Showered(s) ==
    LET L == Ascending(Leafs(s.par))
    IN  [j \in Idx(L) |-> <<21, -51, OutVtx(L[j]), HadVtx(s.fed[L[j]]), FALSE>>]
Used(s) == {s.fed[i] : i \in Leafs(s.par)} \cup (IF s.bg THEN {0} ELSE {})
Hadrons(s) ==
    IF Used(s) = {0, 1}
    THEN <<<<211, 83, -20, 1, TRUE>>, <<-211, 84, -20, 2, TRUE>>, <<321, 83, -21, 3, TRUE>>>>
    ELSE LET v == HadVtx(CHOOSE x \in Used(s) : TRUE) IN
         <<<<211, 83, v, 1, TRUE>>, <<113, -84, v, -30, FALSE>>,
           <<211, 91, -30, 2, TRUE>>, <<-211, 91, -30, 3, TRUE>>>>
Rows0(s) ==
    <<<<2212, -12, 0, -1, FALSE>>, <<21, -21, -1, -2, FALSE>>>> \o Hard(s) \o
    (IF s.bg THEN <<<<21, -31, -1, -20, FALSE>>>> ELSE <<>>) \o
    Showered(s) \o Hadrons(s)
RowsOf(s) == IF s.rev THEN Reverse(Rows0(s)) ELSE Rows0(s)
EventOf(s) ==
    LET R == RowsOf(s) IN
    [pdg |-> [i \in Idx(R) |-> R[i][1]], status |-> [i \in Idx(R) |-> R[i][2]],
     E |-> [i \in Idx(R) |-> <<R[i][3], R[i][4]>>], final |-> [i \in Idx(R) |-> R[i][5]]]

Row(ev, i) == CHOOSE r \in 1..EvSize(ev) : Dst(ev.E, r) = OutVtx(i)
Recovers ==
    LET ev == EventOf(c)
        F == Families(ev)
        n == Len(c.par)
    IN  /\ Acyclic(ev.E)
        /\ Forest(F)
        /\ Cardinality(HardSet(ev)) = n
        /\ \A i \in 1..n : LET r == Row(ev, i) IN
             /\ HasParent(F, r) <=> c.par[i] # 0
             /\ c.par[i] # 0 => Parent(F, r) = Row(ev, c.par[i])
             /\ r \in Bottoms(F) <=> i \in Leafs(c.par)
        /\ UNION {F[r] : r \in Tops(F)} = UNION {F[r] : r \in DOMAIN F}
        /\ \A r \in DOMAIN F : UNION {F[k] : k \in Children(F, r)} \subseteq F[r] \ {r}
        /\ NoRepeats(LET s == HardSeq(ev) IN [j \in Idx(s) |-> HardNames(ev)[s[j]]])
Emit == ~Emitting \/ PrintT("CASE " \o ToJson([k |-> "event", ev |-> EventOf(c)]))
=============================================================================
