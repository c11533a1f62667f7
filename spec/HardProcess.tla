----------------------------- MODULE HardProcess ----------------------------
(* The partons of the hard process of an event record, what descends from  *)
(* each, and how they nest (C12, C13).  An event ev is a record of         *)
(* parallel sequences pdg, status, final (booleans) and edges E.           *)
EXTENDS Topology, Particles, Masks

EvSize(ev) == Len(ev.E)
HardStates == {22, 23, 24}
HardSet(ev) == {i \in 1..EvSize(ev) : Abs(ev.status[i]) \in HardStates}
HardSeq(ev) == Ascending(HardSet(ev))
HasIntermediate(ev) == \E i \in 1..EvSize(ev) : Abs(ev.status[i]) = 22

(* A parton and everything descended from it.                              *)
Family(ev, i) ==
    {i} \cup (IF Leaving(ev.E, Dst(ev.E, i)) = {} THEN {}
              ELSE Descendants(ev.E, Dst(ev.E, i)))
Families(ev) == TLCEval([i \in HardSet(ev) |-> Family(ev, i)])

HardNames(ev) ==
    LET seq == HardSeq(ev)
        lab == Labelled([j \in Idx(seq) |-> ev.pdg[seq[j]]])
    IN  TLCEval([i \in HardSet(ev) |-> lab[Position(seq, i)]])

(* Nearest hard ancestor: the one which descends from all the others.      *)
Ancestors(F, i) == {a \in DOMAIN F : a # i /\ i \in F[a]}
Forest(F) == \A i \in DOMAIN F : \A a, b \in Ancestors(F, i) :
                 a = b \/ (a \in F[b] /\ b \notin F[a]) \/ (b \in F[a] /\ a \notin F[b])
HasParent(F, i) == Ancestors(F, i) # {}
Parent(F, i) == CHOOSE a \in Ancestors(F, i) :
                    \A b \in Ancestors(F, i) : a = b \/ a \in F[b]
Children(F, p) == {i \in DOMAIN F : HasParent(F, i) /\ Parent(F, i) = p}
Tops(F) == {i \in DOMAIN F : ~HasParent(F, i)}
Bottoms(F) == {i \in DOMAIN F : Children(F, i) = {}}

NoRepeats(s) == Len(s) = Cardinality(Range0(s))
ItemOf(g, name) == g.kids[CHOOSE i \in Idx(g.names) : g.names[i] = name]

(* Problems of the subtree `node' as the place of parton p.                *)
RECURSIVE NodeProblems(_, _, _, _, _)
NodeProblems(node, p, F, N, n) ==
    LET K == Children(F, p) IN
    IF K = {} THEN
        IF node.t # "m" THEN {"leaf-not-flat"}
        ELSE IF TrueSet(node.b) # F[p] \/ Len(node.b) # n THEN {"leaf-mask"} ELSE {}
    ELSE IF node.t # "g" THEN {"subtree-missing"}
    ELSE IF Range0(node.names) # {N[c] : c \in K} \cup {"latent"} \/ ~NoRepeats(node.names)
         THEN {"children"}
    ELSE UNION {NodeProblems(ItemOf(node, N[c]), c, F, N, n) : c \in K} \cup
         Failing({
            <<"subtree-cover", Defined(node) /\ TrueSet(Data(node)) = F[p]>>,
            <<"remainder", LET r == ItemOf(node, "latent") IN
                r.t = "m" /\ Len(r.b) = n /\
                TrueSet(r.b) = F[p] \ UNION {F[c] : c \in K}>>})

TreeProblems(tree, ev) ==
    LET F == Families(ev)
        N == HardNames(ev)
        T == Tops(F)
    IN  IF ~Forest(F) THEN {}
        ELSE IF tree.t # "g" THEN {"not-a-group"}
        ELSE IF Range0(tree.names) # {N[p] : p \in T} \/ ~NoRepeats(tree.names)
             THEN {"top-level"}
        ELSE UNION {NodeProblems(ItemOf(tree, N[p]), p, F, N, EvSize(ev)) : p \in T}

FlatTree(ev) ==
    LET seq == HardSeq(ev) N == HardNames(ev) F == Families(ev) IN
    [names |-> [j \in Idx(seq) |-> N[seq[j]]],
     kids |-> [j \in Idx(seq) |-> [t |-> "m", b |-> MaskOf(F[seq[j]], EvSize(ev))]]]
=============================================================================
