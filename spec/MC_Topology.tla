----------------------------- MODULE MC_Topology ----------------------------
(* Every multigraph of up to MaxEdges edges over Labels: laws of the views *)
(* and of reachability, and cases for replay in the real code.             *)
EXTENDS Topology, Json
CONSTANTS Labels, MaxEdges, Dag, CaseKind
VARIABLE c
Three == {-1, 0, 2}
Four == {-2, -1, 0, 1}
Pairs == {p \in Labels \X Labels : ~Dag \/ p[1] # p[2]}
Graphs == UNION {[1..n -> Pairs] : n \in 1..MaxEdges}
Init == c \in {E \in Graphs : ~Dag \/ Acyclic(E)}
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

n == Len(c)
RowSum(M, i) == SumSeq(M[i])
Laws ==
    LET M == Matrix(c, Ones(c))
        V == Ordered(c)
    IN  /\ SumSeq([i \in Idx(V) |-> RowSum(M, i)]) = n
        /\ \A i \in Idx(V) : RowSum(M, i) = Cardinality(Leaving(c, V[i]))
        /\ \A i \in Idx(c) : i \in RootEdges(c) <=>
             \A r \in Idx(V) : M[r][Position(V, Src(c, i))] = 0
        /\ \A i \in Idx(c) : i \in LeafEdges(c) <=>
             \A k \in Idx(V) : M[Position(V, Dst(c, i))][k] = 0
        /\ Dag => (RootEdges(c) # {} /\ LeafEdges(c) # {})
Relabel(E) == [i \in Idx(E) |-> <<3 * E[i][1] + 1, 3 * E[i][2] + 1>>]
Swapped(E) == [i \in Idx(E) |-> E[Len(E) + 1 - i]]
Lineal ==
    \A v \in Vertices(c) :
        /\ Descendants(Relabel(c), 3 * v + 1) = Descendants(c, v)
        /\ Descendants(Swapped(c), v) = {n + 1 - i : i \in Descendants(c, v)}
        /\ Leaving(c, v) \subseteq Descendants(c, v)
        /\ Leaving(c, v) # {} =>
             Descendants(c, v) = Leaving(c, v) \cup
                UNION {IF Leaving(c, Dst(c, i)) = {} THEN {} ELSE Descendants(c, Dst(c, i)) :
                       i \in Leaving(c, v)}
        /\ \A i \in Leaving(c, v) :
             EdgeDescendants(c, c[i]) \subseteq Descendants(c, v) \cup Entering(c, Dst(c, i))
        /\ Dag => \A i \in Leaving(c, v) : Leaving(c, Dst(c, i)) = {} \/
             i \notin Descendants(c, Dst(c, i))
Emit == PrintT("CASE " \o ToJson([k |-> CaseKind, E |-> c, w |-> <<>>, small |-> TRUE]))
=============================================================================
