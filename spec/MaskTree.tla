------------------------------ MODULE MaskTree ------------------------------
(* C02: mask groups as ordered labelled trees.                             *)
EXTENDS Masks

(* Unordered member selection by a repeated list keeps the first place.    *)
Dedup(ns) == FoldLeft(LAMBDA acc, n: IF n \in Range0(acc) THEN acc ELSE Append(acc, n),
                      <<>>, ns)

Got(name, e, expected) ==
    Failing({<<name \o "-refused", e.r.ok>>,
             <<name \o "-value", ~e.r.ok \/ e.r.v = expected>>})
Refused(name, e) == Failing({<<name \o "-accepted", ~e.r.ok>>})

PickBad(e) ==
    IF \A i \in Idx(e.names) : e.names[i] \in NamesOf(e.m)
    THEN Got("select-names", e, PickNames(e.m, Dedup(e.names)))
    ELSE Refused("unknown-name", e)

RowsBad(e) == Got("select-rows", e, Rows(e.m, e.idx))
CopyBad(e) == Got("copy", e, e.m)
DropBad(e) ==
    Got("drop", e, Drop(e.m, e.key)) \cup
    Failing({<<"drop-target",
               ~e.r.ok \/ e.post = (IF e.inplace THEN Drop(e.m, e.key) ELSE e.m)>>})

(* Groups below the root must be able to aggregate to be flattened.        *)
Aggregates(g) == \A i \in Idx(g.kids) : Defined(g.kids[i])
FlatBad(e) ==
    CASE e.how = "rise" -> IF ~Aggregates(e.m) THEN {} ELSE Got("flatten-rise", e, FlatRise(e.m))
      [] e.how = "agg" -> IF ~Aggregates(e.m) THEN {} ELSE Got("flatten-agg", e, FlatAgg(e.m))
      [] e.how = "leaves" -> Got("flatten-leaves", e, Leaves(e.m))
      [] e.how = "leaf_masks" -> Got("leaf-masks", e, Leaves(e.m))

SerialBad(e) ==
    Got("serialize-rebuild", e, Rebuilt(e.m)) \cup
    Failing({<<"serialize-not-equal", ~e.r.ok \/ e.eq>>})

EqualBad(e) == Got("equal", e, SameTree(e.a, e.b, e.order))

(* One mutation: the whole tree before, the operation, the tree after.     *)
MutBad(e) ==
    LET want ==
          CASE e.op = "set" -> SetItem(e.pre, e.name, e.m)
            [] e.op = "del" -> DelItem(e.pre, e.name)
            [] e.op = "pop" -> DelItem(e.pre, e.name)
            [] e.op = "aggop" -> AsOp(e.pre, e.name)
            [] e.op = "drop" -> Drop(e.pre, e.name)
            [] OTHER -> e.pre
        absent == e.op \in {"del", "pop"} /\ e.name \notin NamesOf(e.pre)
    IN  Failing({
          <<"mutation-" \o e.op \o "-outcome", e.ok = ~absent>>,
          <<"mutation-" \o e.op \o "-tree", e.post = want>>,
          <<"mutation-length", e.len = Len(e.post.names)>>})

IterBad(e) ==
    Failing({<<"iteration-names", e.names = e.m.names>>,
             <<"iteration-length", e.len = Len(e.m.names)>>,
             <<"iteration-members", e.members = e.m.kids>>,
             <<"iteration-contains", e.contains = (e.probe \in NamesOf(e.m))>>})

StructBad(e) == Got("from-structured", e, e.m)

Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k = "pick" -> PickBad(e)
       [] e.k = "rows" -> RowsBad(e)
       [] e.k = "copy" -> CopyBad(e)
       [] e.k = "drop" -> DropBad(e)
       [] e.k = "flat" -> FlatBad(e)
       [] e.k = "serial" -> SerialBad(e)
       [] e.k = "equal" -> EqualBad(e)
       [] e.k = "mut" -> MutBad(e)
       [] e.k = "iter" -> IterBad(e)
       [] e.k = "struct" -> StructBad(e)
       [] OTHER -> {}) \cup
    (IF e.k \in {"pick", "rows", "copy", "flat", "serial", "equal", "iter"}
     THEN Failing({<<"operand-changed", e.same>>}) ELSE {})
=============================================================================
