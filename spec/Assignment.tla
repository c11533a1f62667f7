----------------------------- MODULE Assignment -----------------------------
(* C18: every focus gets a candidate of its own at the smallest total cost,*)
(* and partons of the hard process are tagged with clusters accordingly.   *)
(*                                                                         *)
(* Points are [rap, phi, pt] in units of 10^-8; costs are integer counts   *)
(* of 10^-8. The mismatch in angle and that in transverse momentum cost    *)
(* 1 - exp(-d^2 / (2 var)) each, var being the variance over candidates.   *)
EXTENDS Particles, Big

Turn1 == B(628318531)
Half1 == B(314159265)
RECURSIVE Wrapped(_)
Wrapped(d) == IF Lt(Half1, d) THEN Wrapped(AbsB(Sub(Turn1, d))) ELSE d
Drop(x, k) == <<IF Len(x[2]) <= k THEN 0 ELSE x[1], IF Len(x[2]) <= k THEN <<>> ELSE SubSeq(x[2], k + 1, Len(x[2]))>>
RECURSIVE Digits(_)
Digits(m) == IF m = <<>> THEN 0 ELSE Head(m) + Base * Digits(Tail(m))
Small(x) == x[1] * Digits(x[2])

(* exp(-a) in units of 10^-16, with a in units of 10^-9: the exponential   *)
(* of a 1024th part, squared ten times.                                    *)
One16 == Ten(16)
Part16(k) == CASE k = 1 -> Ten(16) [] k = 2 -> Mul(B(5), Ten(15)) [] k = 3 -> Mul(B(333333333), Ten(7))
               [] k = 4 -> Mul(B(25), Ten(14)) [] k = 5 -> Mul(B(2), Ten(15)) [] k = 6 -> Mul(B(166666667), Ten(7))
RECURSIVE Series(_, _, _)
Series(x, k, h) == IF k = 0 THEN h ELSE Series(x, k - 1, Sub(One16, Drop(Mul(Mul(x, h), Part16(k)), 8)))
RECURSIVE Squared(_, _)
Squared(x, n) == IF n = 0 THEN x ELSE Squared(Drop(Sq(x), 4), n - 1)
ExpNeg(a) == IF Lt(B(2000000000), Drop(Mul(a, B(500)), 1)) THEN Zero     \* beyond 40
             ELSE TLCEval(Squared(Series(Drop(Mul(a, B(97656250)), 1), 6, One16), 10))

(* d is the distance between two points, rounded down.                     *)
DistIs(d, p, q) ==
    LET s == Add(Sq(Sub(p.rap, q.rap)), Sq(Wrapped(AbsB(Sub(p.phi, q.phi))))) IN
    d[1] >= 0 /\ Leq(Sq(d), s) /\ Lt(s, Sq(Add(d, B(1))))
(* n^2 times the variance of a sequence.                                   *)
VarN(s) == TLCEval(Sub(Mul(B(Len(s)), SumB([i \in DOMAIN s |-> Sq(s[i])])), Sq(SumB(s))))
LowB(s) == FoldLeft(MinB, s[1], s)
HighB(s) == FoldLeft(MaxB, s[1], s)
Spread(s) == Sub(HighB(s), LowB(s))
(* The spread of a row decides whether its costs differ: "flat" ones do    *)
(* not, and nothing is asked where rounding may decide.                    *)
Status(s, ds, exact) ==
    IF s = <<>> THEN "flat"
    ELSE IF Leq(Spread(s), B(2)) THEN (IF exact \/ Lt(B(100), LowB(ds)) THEN "flat" ELSE "unsure")
    ELSE IF Leq(Spread(s), B(1000000)) THEN "unsure" ELSE "live"
(* q is d^2 / (2 var) in units of 10^-9, rounded down; var = v / n^2.      *)
QuotientIs(q, d, v, n) ==
    LET top == Mul(Mul(Sq(d), B(n * n)), Ten(9))
        low == Mul(q, Mul(B(2), v))
    IN  q[1] >= 0 /\ Leq(low, top) /\ Lt(Sub(top, low), Mul(B(2), v))
Price(q) == 100000000 - Small(Drop(ExpNeg(q), 2))

(* Row of the focus f: its distances d, quotients qd and qp are witnesses  *)
(* which have to fit.                                                      *)
PtGaps(f, c) == [j \in DOMAIN c |-> AbsB(Sub(f.pt, c[j].pt))]
Pts(c) == [j \in DOMAIN c |-> c[j].pt]
AngleStatus(w, e) == Status(w.d, w.d, e.exact)
PtStatus(f, c, e) == Status(Pts(c), PtGaps(f, c), e.exact)
RowSure(f, c, w, e) == AngleStatus(w, e) # "unsure" /\ PtStatus(f, c, e) # "unsure"
RowFits(f, c, w, e) ==
    /\ \A j \in DOMAIN c: DistIs(w.d[j], f, c[j])
    /\ AngleStatus(w, e) = "live" => LET v == VarN(w.d) IN \A j \in DOMAIN c: QuotientIs(w.qd[j], w.d[j], v, Len(c))
    /\ PtStatus(f, c, e) = "live" =>
         LET v == VarN(Pts(c)) g == PtGaps(f, c) IN \A j \in DOMAIN c: QuotientIs(w.qp[j], g[j], v, Len(c))
RowCost(f, c, w, e) ==
    LET angle == TLCEval(AngleStatus(w, e))
        pt == TLCEval(PtStatus(f, c, e))
    IN  TLCEval([j \in DOMAIN c |-> (IF angle = "live" THEN Price(w.qd[j]) ELSE 0) + (IF pt = "live" THEN Price(w.qp[j]) ELSE 0)])

(* The smallest total over all assignments of columns to rows: layer k     *)
(* holds the best for the first k rows by the set of columns they use.     *)
LayerStep(C, m, i, prev) ==
    TLCEval([S \in kSubset(i, 1..m) |-> MinOf({prev[S \ {j}] + C[i][j]: j \in S})])
RECURSIVE Layer(_, _, _)
Layer(C, m, i) == IF i = 0 THEN [S \in {{}} |-> 0] ELSE LayerStep(C, m, i, Layer(C, m, i - 1))
Cheapest(C, m) == LET last == Layer(C, m, Len(C)) IN MinOf({last[S]: S \in DOMAIN last})
Injective(a) == \A p \in (DOMAIN a) \X (DOMAIN a): p[1] < p[2] => a[p[1]] # a[p[2]]
Slack == 1000

(* a: the columns (1..m) given to the rows of C.                           *)
MatchBad(a, C, m) ==
    IF \E i \in DOMAIN a: a[i] \notin 1..m THEN {"range"}
    ELSE IF ~Injective(a) THEN {"shared"}
    ELSE IF SumSeq([i \in DOMAIN a |-> C[i][a[i]]]) > Cheapest(C, m) + Slack THEN {"dear"}
    ELSE {}
(* Costs of the rows `rows' of the event, or <<>> if one is unsure.        *)
Costs(e, rows) ==
    [k \in DOMAIN rows |-> RowCost(e.f[rows[k]], e.c, e.w[rows[k]], e)]
SureOf(e, rows) == \A k \in DOMAIN rows: RowSure(e.f[rows[k]], e.c, e.w[rows[k]], e)
FitsOf(e, rows) == \A k \in DOMAIN rows: RowFits(e.f[rows[k]], e.c, e.w[rows[k]], e)

CloseBad(e) ==
    LET n == Len(e.f)
        m == Len(e.c)
        all == [i \in 1..n |-> i]
        plain == UNION {
            IF ~e.calls[k].r.ok THEN {"close-error"}
            ELSE IF Len(e.calls[k].r.v) # n THEN {"close-length"}
            ELSE IF \E i \in 1..n: e.calls[k].r.v[i] \notin 0..(m - 1) THEN {"close-range"}
            ELSE IF ~Injective(e.calls[k].r.v) THEN {"close-shared"} ELSE {}: k \in DOMAIN e.calls}
    IN  IF plain # {} THEN plain
        ELSE IF ~FitsOf(e, all) THEN {"witness"}
        ELSE IF ~SureOf(e, all) THEN {}
        ELSE LET C == TLCEval(Costs(e, all))
                 best == Cheapest(C, m)
             IN  IF \E k \in DOMAIN e.calls:
                       SumSeq([i \in 1..n |-> C[i][e.calls[k].r.v[i] + 1]]) > best + Slack
                 THEN {"close-dear"} ELSE {}
CallsBad(e) ==
    Failing({<<"threads", \A k \in DOMAIN e.calls: e.calls[k].before = e.calls[k].after>>,
             <<"input-changed", e.same>>, <<"cache-changed", e.cached>>})

(* Tagging. Clusters are masks; particles carry a code and a status.       *)
Codes(s, signed) == {IF signed THEN s[i] ELSE Abs(s[i]): i \in DOMAIN s}
Wanted(e, i) ==
    /\ \/ (e.outgoing /\ Abs(e.status[i]) = 23)
       \/ (e.intermediate /\ Abs(e.status[i]) = 22)
    /\ LET code == IF e.signed THEN e.pdg[i] ELSE Abs(e.pdg[i]) IN
       /\ e.white # <<>> => code \in Codes(e.white, e.signed)
       /\ e.black # <<>> => code \notin Codes(e.black, e.signed)
Chosen(e) == Ascending({i \in DOMAIN e.pdg: Wanted(e, i)})
Refusal(e) ==
    \/ e.masks = <<>>
    \/ ~e.outgoing /\ ~e.intermediate
    \/ e.white # <<>> /\ e.black # <<>>
    \/ (e.white # <<>> \/ e.black # <<>>) /\ Chosen(e) = <<>>
    \/ Len(e.masks) < Len(Chosen(e))
    \/ \E j \in DOMAIN e.masks: Len(e.masks[j]) # e.size
ClusterOf(e, mask) == {j \in DOMAIN e.masks: e.masks[j] = mask}
TagBad(e) ==
    LET who == Chosen(e)
        v == e.r.v
        rows == [k \in DOMAIN who |-> e.at[who[k]]]
    IN  IF Refusal(e) THEN (IF e.r.ok THEN {"tag-accepted"} ELSE {})
        ELSE IF who = <<>> THEN {}
        ELSE IF ~e.r.ok THEN {"tag-error"}
        ELSE IF v.t # "g" \/ v.op # "or" THEN {"tag-group"}
        ELSE IF v.names # Labelled([k \in DOMAIN who |-> e.pdg[who[k]]]) THEN {"tag-names"}
        ELSE IF \E k \in DOMAIN who: v.kids[k].t # "m" \/ ClusterOf(e, v.kids[k].b) = {} THEN {"tag-cluster"}
        ELSE IF ~FitsOf(e, rows) THEN {"witness"}
        ELSE LET a == [k \in DOMAIN who |-> MinOf(ClusterOf(e, v.kids[k].b))] IN
             IF ~Injective(a) THEN {"tag-shared"}
             ELSE IF ~SureOf(e, rows) THEN {}
             ELSE {"tag-" \o b: b \in MatchBad(a, TLCEval(Costs(e, rows)), Len(e.masks))}

Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k = "close" -> CloseBad(e) \cup CallsBad(e)
       [] e.k = "tag" -> TagBad(e) \cup (IF e.same THEN {} ELSE {"input-changed"})
       [] OTHER -> {})
=============================================================================
