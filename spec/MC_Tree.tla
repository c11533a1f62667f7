------------------------------ MODULE MC_Tree -------------------------------
(* Small-scope design check of the tree operations: every tree of depth    *)
(* <= Depth over one particle; laws, and cases for replay.                 *)
EXTENDS MaskTree, Json
CONSTANTS Depth
VARIABLE c
Flat == {[t |-> "m", b |-> <<x>>] : x \in BOOLEAN}
(* Labels are distinct along every path and between siblings.              *)
RECURSIVE Trees(_, _)
Trees(d, L) ==
    LET sub(X) == Flat \cup (IF d > 1 THEN Trees(d - 1, X) ELSE {})
        one == {[t |-> "g", op |-> o, names |-> <<n>>, kids |-> <<k>>] :
                   o \in {"and", "or"}, n \in {"latent", L[1]}, k \in sub(Tail(L))}
        two == {[t |-> "g", op |-> o, names |-> <<L[1], n>>, kids |-> <<k1, k2>>] :
                   o \in {"or"}, n \in {"latent", L[2]},
                   k1 \in sub(<<L[3], L[4]>>), k2 \in Flat}
    IN  IF Len(L) >= 4 THEN one \cup two
        ELSE IF Len(L) >= 1 THEN one ELSE {}
All == Trees(Depth, <<"a", "b", "c", "d", "e", "f">>)
Cases == {[k |-> kk, m |-> m, key |-> "latent", inplace |-> FALSE, default |-> FALSE,
           how |-> h, probe |-> "latent"] :
             kk \in {"copy", "serial", "iter"}, h \in {"rise"}, m \in All}
         \cup {[k |-> "drop", m |-> m, key |-> x, inplace |-> i, default |-> FALSE] :
                 m \in All, x \in {"latent", "a", "c"}, i \in BOOLEAN}
         \cup {[k |-> "flat", m |-> m, how |-> h, default |-> FALSE] :
                 m \in All, h \in {"rise", "agg", "leaves", "leaf_masks"}}
Init == c \in Cases
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

Laws(m) ==
    /\ \A key \in {"latent", "a"} : Drop(Drop(m, key), key) = Drop(m, key)
    /\ SameTree(m, Rebuilt(m), TRUE)
    /\ Rebuilt(Rebuilt(m)) = Rebuilt(m)
    /\ Leaves(Drop(m, "latent")) = Leaves(m)
    /\ FlatRise(Drop(m, "latent")).names = FlatRise(m).names
    /\ (Defined(m) /\ \A i \in Idx(m.kids) : Defined(m.kids[i])) =>
          /\ Len(FlatAgg(m).names) = Len(m.names)
          /\ Data([FlatAgg(m) EXCEPT !.op = m.op]) = Data(m)
    /\ \A key \in {"a", "c"} : key \notin NamesOf(Drop(m, key))
Lawful == Laws(c.m)
Emit == PrintT("CASE " \o ToJson(c))
=============================================================================
