---------------------------- MODULE MaskAlgebra -----------------------------
(* C01: operators on masks.  Events carry operands and outcomes.           *)
EXTENDS Masks

BinBad(e) ==
    LET a == e.a  b == e.b  r == e.r IN
    IF ~IsMask(a) \/ ~IsMask(b)
    THEN Failing({<<"unsupported-operand-accepted", ~r.ok>>})
    ELSE IF SwitchedOff(a) \/ SwitchedOff(b)
    THEN Failing({<<"switched-off-group-answered", ~r.ok>>})
    ELSE IF ~Defined(a) \/ ~Defined(b) THEN {}
    ELSE IF Size(a) # Size(b)
    \* a length-one array on the left broadcasts by numpy's rules, not ours
    THEN (IF (e.op \in {"eq", "ne"} /\ a.t # "a") \/ (Size(a) # 1 /\ Size(b) # 1)
          THEN Failing({<<"unequal-lengths-answered", ~r.ok>>}) ELSE {})
    ELSE Failing({
        <<"operator-" \o e.op \o "-refused", r.ok>>,
        <<"operator-" \o e.op \o "-value",
          ~r.ok \/ r.v = Apply(e.op, Data(a), Data(b))>>})

UnBad(e) ==
    LET m == e.m  r == e.r IN
    IF SwitchedOff(IF e.op \in {"orall", "andall"} /\ IsGroup(m) THEN AsOp(m, "or") ELSE m)
    THEN Failing({<<"switched-off-group-answered", ~r.ok>>})
    ELSE LET mm == IF e.op = "orall" THEN AsOp(m, "or")
                   ELSE IF e.op = "andall" THEN AsOp(m, "and") ELSE m
         IN IF ~Defined(mm) THEN {}
            ELSE Failing({
                <<"aggregate-" \o e.op \o "-refused", r.ok>>,
                <<"aggregate-" \o e.op \o "-value",
                  ~r.ok \/ r.v = (IF e.op = "not" THEN BitNot(Data(mm)) ELSE Data(mm))>>})

OverlapBad(e) ==
    IF \E i \in Idx(e.m.kids) : SwitchedOff(e.m.kids[i])
    THEN (IF Len(e.m.kids) >= 2 THEN Failing({<<"switched-off-group-answered", ~e.r.ok>>}) ELSE {})
    ELSE IF \E i \in Idx(e.m.kids) : ~Defined(e.m.kids[i]) THEN {}
    ELSE Failing({
        <<"overlap-refused", e.r.ok>>,
        <<"overlap-value", ~e.r.ok \/ e.r.v = Overlap(e.m)>>})

(* Jaccard distance d (fixed point, d * 1000000) against integer weights.  *)
JaccardBad(e) ==
    LET x == Data(e.a)  y == Data(e.b)
        W(i) == IF e.weighted THEN e.w[i] ELSE 1
        un == SumOver({i \in Idx(x) : x[i] \/ y[i]}, W)
        df == SumOver({i \in Idx(x) : x[i] # y[i]}, W)
        v == e.r.v
    IN  Failing({
          <<"jaccard-refused", e.r.ok>>,
          <<"jaccard-value",
            ~e.r.ok \/
            IF un = 0 THEN v.c = "fin" /\ v.n = 0
            ELSE v.c = "fin" /\ Abs(v.n * un - 1000000 * df) <= un>>})

Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k = "bin" -> BinBad(e) \cup Failing({<<"operands-changed", e.same>>})
       [] e.k = "un" -> UnBad(e) \cup Failing({<<"operands-changed", e.same>>})
       [] e.k = "overlap" -> OverlapBad(e) \cup Failing({<<"operands-changed", e.same>>})
       [] e.k = "jaccard" -> JaccardBad(e)
       [] OTHER -> {})
=============================================================================
