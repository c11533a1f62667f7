------------------------------ MODULE MC_Masks ------------------------------
(* Small-scope design check of the mask model: every mask of depth <= 2    *)
(* over N particles with <= 2 members per group.  Checks the laws the      *)
(* operators must satisfy and emits every case for replay in the code.     *)
EXTENDS Masks, Json
CONSTANTS N, EmitPairs
VARIABLE c

Bits == [1..N -> BOOLEAN]
Flat == {[t |-> "m", b |-> b] : b \in Bits}
Group(K) ==
    {[t |-> "g", op |-> o, names |-> <<"p">>, kids |-> <<k>>] :
        o \in {"and", "or", "none"}, k \in K}
    \cup
    {[t |-> "g", op |-> o, names |-> <<"p", "q">>, kids |-> <<k1, k2>>] :
        o \in {"and", "or", "none"}, k1 \in K, k2 \in K}
D1 == Flat \cup Group(Flat)
D2 == D1 \cup Group(D1)
Ops == {"and", "or", "eq", "ne"}

Cases ==
    {[k |-> "un", op |-> o, m |-> m] : o \in {"not", "data"}, m \in D2}
    \cup {[k |-> "overlap", m |-> m] : m \in D2 \ Flat}
    \cup (IF EmitPairs
          THEN {[k |-> "bin", op |-> o, a |-> a, b |-> b] :
                   o \in Ops, a \in D1, b \in D1}
          ELSE {})
Init == c \in Cases
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

Laws(m) ==
    Defined(m) =>
      /\ Len(Data(m)) = N
      /\ BitNot(BitNot(Data(m))) = Data(m)
      /\ IsGroup(m) =>
           /\ \A i \in Idx(m.kids) : \A p \in 1..N :
                 (m.op = "or" /\ Data(m.kids[i])[p]) => Data(m)[p]
           /\ \A i \in Idx(m.kids) : \A p \in 1..N :
                 (m.op = "and" /\ Data(m)[p]) => Data(m.kids[i])[p]
           /\ (Overlap(m) => Len(m.kids) > 1)
PairLaws(a, b) ==
    (Defined(a) /\ Defined(b)) =>
      LET x == Data(a)  y == Data(b) IN
      /\ BitNot(BitAnd(x, y)) = BitOr(BitNot(x), BitNot(y))
      /\ BitEq(x, y) = BitNot(BitNe(x, y))
      /\ BitAnd(x, y) = BitAnd(y, x) /\ BitOr(x, y) = BitOr(y, x)
Lawful == IF c.k = "bin" THEN PairLaws(c.a, c.b) ELSE Laws(c.m)
Emit == PrintT("CASE " \o ToJson(c))
=============================================================================
