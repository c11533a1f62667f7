------------------------------ MODULE Hierarchy -----------------------------
(* C13: the hierarchy of the hard process.                                 *)
EXTENDS HardProcess

(* What a tree of masks says of the final particles.                       *)
OnFinal(tree, ev) == Rows(tree, SelectSeq([i \in Idx(ev.final) |-> i], LAMBDA i: ev.final[i]))
HierBad(e) ==
    IF ~Forest(Families(e.ev)) THEN {}
    ELSE IF ~e.r.ok THEN {"refused"}
    ELSE (IF HasIntermediate(e.ev) THEN TreeProblems(e.r.v, e.ev)
          ELSE LET want == FlatTree(e.ev) IN
               Failing({<<"flat-names", e.r.v.names = want.names>>,
                        <<"flat-masks", e.r.v.kids = want.kids>>})) \cup
         Failing({<<"precomputed-differs", e.given = e.r.v>>,
                  <<"precomputed-order", HasIntermediate(e.ev) => e.mixed = e.r.v>>,
                  <<"precomputed-bare", HasIntermediate(e.ev) => OnFinal(e.bare, e.ev) = OnFinal(e.r.v, e.ev)>>,
                  <<"precomputed-changed", e.descsame>>,
                  <<"event-changed", e.same>>})
Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k = "hier" -> HierBad(e)
       [] OTHER -> {})
=============================================================================
