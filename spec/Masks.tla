------------------------------- MODULE Masks --------------------------------
(* Particle masks.  A mask value is one of                                 *)
(*   [t |-> "m", b]                 flat mask (sequence of booleans)       *)
(*   [t |-> "a", b]                 plain boolean array                    *)
(*   [t |-> "g", op, names, kids]   group: labelled, ordered, aggregated   *)
(*   [t |-> "x"]                    something which is not a mask          *)
EXTENDS Common

IsGroup(m) == m.t = "g"
IsMask(m) == m.t \in {"m", "g", "a"}

(* Length of a mask; -1 when its members disagree or there are none.       *)
RECURSIVE Size(_)
Size(m) ==
    IF m.t # "g" THEN (IF m.t = "x" THEN -1 ELSE Len(m.b))
    ELSE IF Len(m.kids) = 0 THEN -1
    ELSE LET ls == {Size(m.kids[i]) : i \in Idx(m.kids)}
         IN  IF Cardinality(ls) = 1 THEN CHOOSE x \in ls : TRUE ELSE -1

(* Whether the mask has a meaning as a flat boolean sequence.              *)
RECURSIVE Defined(_)
Defined(m) ==
    CASE m.t = "x" -> FALSE
      [] m.t = "g" -> /\ m.op \in {"and", "or"}
                      /\ Size(m) >= 0
                      /\ \A i \in Idx(m.kids) : Defined(m.kids[i])
      [] OTHER -> TRUE

(* Aggregation switched off somewhere it is needed.                        *)
RECURSIVE SwitchedOff(_)
SwitchedOff(m) ==
    /\ m.t = "g"
    /\ \/ m.op = "none"
       \/ \E i \in Idx(m.kids) : SwitchedOff(m.kids[i])

(* The boolean sequence a mask stands for.                                 *)
RECURSIVE Data(_)
Data(m) ==
    IF m.t # "g" THEN m.b
    ELSE LET ds == [i \in Idx(m.kids) |-> Data(m.kids[i])]
         IN  [p \in 1..Size(m) |->
                 IF m.op = "and" THEN \A i \in Idx(ds) : ds[i][p]
                                 ELSE \E i \in Idx(ds) : ds[i][p]]

BitAnd(x, y) == [i \in Idx(x) |-> x[i] /\ y[i]]
BitOr(x, y) == [i \in Idx(x) |-> x[i] \/ y[i]]
BitNot(x) == [i \in Idx(x) |-> ~x[i]]
BitEq(x, y) == [i \in Idx(x) |-> x[i] = y[i]]
BitNe(x, y) == [i \in Idx(x) |-> x[i] # y[i]]
Apply(op, x, y) ==
    CASE op = "and" -> BitAnd(x, y)
      [] op = "or" -> BitOr(x, y)
      [] op = "eq" -> BitEq(x, y)
      [] op = "ne" -> BitNe(x, y)

(* Group aggregated with a given operator whatever its own setting.        *)
AsOp(m, op) == [m EXCEPT !.op = op]

Overlap(m) ==
    \E i, j \in Idx(m.kids) :
        /\ i < j
        /\ \E p \in 1..Size(m) : Data(m.kids[i])[p] /\ Data(m.kids[j])[p]

---------------------------------------------------------------------------
(* Trees.                                                                  *)
NamesOf(g) == Range0(g.names)
Child(g, name) == g.kids[CHOOSE i \in Idx(g.names) : g.names[i] = name]
Sub(g, idx) == [g EXCEPT !.names = Take(g.names, idx), !.kids = Take(g.kids, idx)]
PickNames(g, ns) == [g EXCEPT !.names = ns,
                              !.kids = [j \in Idx(ns) |-> Child(g, ns[j])]]

RECURSIVE Rows(_, _)
Rows(m, idx) ==
    IF m.t = "g" THEN [m EXCEPT !.kids = [i \in Idx(m.kids) |-> Rows(m.kids[i], idx)]]
    ELSE [m EXCEPT !.b = Take(m.b, idx)]

RECURSIVE Drop(_, _)
Drop(m, key) ==
    IF m.t # "g" THEN m
    ELSE LET keep == SelectSeq([i \in Idx(m.names) |-> i],
                               LAMBDA i: m.names[i] # key)
             g == Sub(m, keep)
         IN  [g EXCEPT !.kids = [i \in Idx(g.kids) |-> Drop(g.kids[i], key)]]

(* Sequence of <<name, mask>> pairs, parents before their children.        *)
RECURSIVE RisePairs(_)
RisePairs(g) ==
    FoldLeft(LAMBDA acc, i:
        IF g.names[i] = "latent" THEN acc
        ELSE IF IsGroup(g.kids[i])
             THEN acc \o << <<g.names[i], [t |-> "m", b |-> Data(g.kids[i])]>> >>
                      \o RisePairs(g.kids[i])
             ELSE Append(acc, <<g.names[i], g.kids[i]>>),
        <<>>, [i \in Idx(g.names) |-> i])

RECURSIVE LeafPairs(_)
LeafPairs(g) ==
    FoldLeft(LAMBDA acc, i:
        IF g.names[i] = "latent" THEN acc
        ELSE IF IsGroup(g.kids[i]) THEN acc \o LeafPairs(g.kids[i])
        ELSE Append(acc, <<g.names[i], g.kids[i]>>),
        <<>>, [i \in Idx(g.names) |-> i])

FromPairs(ps, op) ==
    [t |-> "g", op |-> op, names |-> [i \in Idx(ps) |-> ps[i][1]],
     kids |-> [i \in Idx(ps) |-> ps[i][2]]]

FlatRise(g) == FromPairs(RisePairs(g), g.op)
FlatAgg(g) == [t |-> "g", op |-> "or", names |-> g.names,
               kids |-> [i \in Idx(g.kids) |-> [t |-> "m", b |-> Data(g.kids[i])]]]
Leaves(g) == FromPairs(LeafPairs(g), g.op)

(* Serialisation keeps labels, nesting and contents; rebuilding gives the  *)
(* default aggregation everywhere.                                         *)
RECURSIVE Rebuilt(_)
Rebuilt(m) ==
    IF m.t # "g" THEN m
    ELSE [m EXCEPT !.op = "and", !.kids = [i \in Idx(m.kids) |-> Rebuilt(m.kids[i])]]

RECURSIVE SameTree(_, _, _)
SameTree(a, b, order) ==
    IF a.t # b.t THEN FALSE
    ELSE IF a.t # "g" THEN a.b = b.b
    ELSE /\ IF order THEN a.names = b.names ELSE NamesOf(a) = NamesOf(b)
         /\ \A n \in NamesOf(a) : SameTree(Child(a, n), Child(b, n), order)

SetItem(g, name, m) ==
    IF name \in NamesOf(g)
    THEN [g EXCEPT !.kids = [i \in Idx(g.kids) |->
                                IF g.names[i] = name THEN m ELSE g.kids[i]]]
    ELSE [g EXCEPT !.names = Append(g.names, name), !.kids = Append(g.kids, m)]
DelItem(g, name) ==
    Sub(g, SelectSeq([i \in Idx(g.names) |-> i], LAMBDA i: g.names[i] # name))
=============================================================================
