-------------------------------- MODULE Jets --------------------------------
(* C17: jets of the generalised kt algorithm, their order, and cuts.       *)
(*                                                                         *)
(* A table holds the coordinates of every pseudojet which may occur: the   *)
(* particles it is made of, its rapidity and azimuth in units of 10^-6,    *)
(* its transverse momentum pt in units of 10^-6 and its weight w, which is *)
(* pt^(2p) in a unit of its own.                                           *)
EXTENDS Big, Common

Turn1 == 6283185
Half1 == 3141593
Wrap(d) == IF d > Half1 THEN Abs(Turn1 - d) ELSE d
Sq32(n) == Sq(B(n))
Apart2(a, b) == Add(Sq32(a.rap - b.rap), Sq32(Wrap(Abs(a.phi - b.phi))))

(* Weights: w^den = pt^num, where num / den = 2p.                          *)
RECURSIVE PowB(_, _)
PowB(x, k) == IF k = 0 THEN B(1) ELSE Mul(x, PowB(x, k - 1))
Alike(a, b, d) == CloseB(a, b, MaxB(AbsB(a), AbsB(b)), d)
WeightIs(w, pt, num, den, unit) ==
    IF num >= 0 THEN Alike(Mul(PowB(w, den), Ten(6 * num)), Mul(PowB(pt, num), PowB(unit, den)), 5)
    ELSE Alike(Mul(PowB(w, den), PowB(pt, -num)), Mul(PowB(unit, den), Ten(6 * (-num))), 5)

(* Distances: <<d, S, T>> of a pair, <<d, S, {}>> of S and the beam.       *)
PairD(tab, S, T, r2) == <<TLCEval(Mul(MinB(tab[S].w, tab[T].w), Apart2(tab[S], tab[T]))), S, T>>
BeamD(tab, S, r2) == <<TLCEval(Mul(tab[S].w, r2)), S, {}>>
(* All distances between distinct members of a sequence of pseudojets.     *)
RECURSIVE AllD(_, _, _)
AllD(tab, ps, r2) ==
    IF ps = <<>> THEN <<>>
    ELSE <<BeamD(tab, ps[1], r2)>> \o [i \in 1..(Len(ps) - 1) |-> PairD(tab, ps[1], ps[i + 1], r2)]
         \o AllD(tab, Tail(ps), r2)
Least(ds) == FoldLeft(LAMBDA a, b: IF Lt(b[1], a[1]) THEN b ELSE a, ds[1], ds)
(* Another distance so close to the least that rounding may decide (which  *)
(* of two leaves first for the beam is of no consequence).                 *)
Contest(ds, x) == \E i \in DOMAIN ds: /\ ds[i] # x /\ ~(x[3] = {} /\ ds[i][3] = {})
                                      /\ CloseB(ds[i][1], x[1], ds[i][1], 4)
Without(ds, gone) == SelectSeq(ds, LAMBDA d: d[2] \notin gone /\ d[3] \notin gone)

(* One step: the closest pair becomes one, or the one closest to the beam  *)
(* becomes a jet. A state is [ps, ds, jets, sure].                         *)
Start(tab, ps, r2) == [ps |-> ps, ds |-> TLCEval(AllD(tab, ps, r2)), jets |-> {}, sure |-> TRUE]
Apply(tab, st, x, r2) ==
    IF x[3] = {} THEN
        [st EXCEPT !.ps = SelectSeq(st.ps, LAMBDA S: S # x[2]), !.ds = Without(st.ds, {x[2]}), !.jets = @ \cup {x[2]}]
    ELSE LET U == x[2] \cup x[3]
             rest == SelectSeq(st.ps, LAMBDA S: S \notin {x[2], x[3]})
         IN  IF U \notin DOMAIN tab THEN [st EXCEPT !.sure = FALSE]
             ELSE [st EXCEPT !.ps = Append(rest, U),
                             !.ds = TLCEval(Without(st.ds, {x[2], x[3]}) \o <<BeamD(tab, U, r2)>>
                                            \o [i \in DOMAIN rest |-> PairD(tab, rest[i], U, r2)])]
RECURSIVE Cluster(_, _, _)
Cluster(tab, st, r2) ==
    IF st.ps = <<>> \/ ~st.sure THEN st
    ELSE LET x == TLCEval(Least(st.ds)) IN
         IF Contest(st.ds, x) THEN [st EXCEPT !.sure = FALSE] ELSE Cluster(tab, TLCEval(Apply(tab, st, x, r2)), r2)

(* Particles along the beam are jets of their own.                         *)
Beams(tab, n) == {i \in 1..n: tab[{i}].beam}
Jets(tab, n, r2) ==
    LET free == Ascending((1..n) \ Beams(tab, n))
        end == Cluster(tab, Start(tab, [k \in DOMAIN free |-> {free[k]}], r2), r2)
    IN  [end EXCEPT !.jets = @ \cup {{i}: i \in Beams(tab, n)}]

(* Cuts, each [on, v]; `limit' is [on, n].                                 *)
AtLeast(pt, cut) == IF cut.on THEN Leq(cut.v, pt) ELSE TRUE
Inside(eta, cut) == IF cut.on THEN eta.c = "fin" /\ Lt(AbsB(eta.v), cut.v) ELSE TRUE
OnEdge(j, c) == \/ c.pt.on /\ NearB(j.pt, c.pt.v, B(10)) /\ ~(c.pt.v = Zero)
                \/ c.eta.on /\ j.eta.c = "fin" /\ NearB(AbsB(j.eta.v), c.eta.v, B(10))
Invalid(c, radius) ==
    \/ radius[1] < 0 \/ (c.pt.on /\ c.pt.v[1] < 0) \/ (c.eta.on /\ c.eta.v[1] < 0)
    \/ c.limit.on /\ (~c.limit.whole \/ c.limit.n < 1)

Partitioned(js) == \A p \in (DOMAIN js) \X (DOMAIN js): p[1] < p[2] => js[p[1]] \cap js[p[2]] = {}
Falling(tab, js) == \A i \in 1..(Len(js) - 1): Leq(tab[js[i + 1]].pt, Add(tab[js[i]].pt, B(2)))
(* js: the jets reported for the cuts c, out of all the jets.              *)
CutsBad(tab, js, all, c) ==
    LET good == {S \in all: AtLeast(tab[S].pt, c.pt) /\ Inside(tab[S].eta, c.eta)}
        want == IF c.limit.on /\ c.limit.n < Cardinality(good) THEN c.limit.n ELSE Cardinality(good)
    IN  IF \E S \in all: OnEdge(tab[S], c) THEN {}
        ELSE IF \E i \in DOMAIN js: js[i] \notin good THEN {"jet-not-kept"}
        ELSE IF Len(js) # want THEN {"number"}
        ELSE IF Len(js) > 0 /\ \E S \in good \ Range0(js): Lt(Add(tab[js[Len(js)]].pt, B(2)), tab[S].pt) THEN {"jet-dropped"}
        ELSE {}
SetsOf(masks) == [i \in DOMAIN masks |-> TrueSet(masks[i])]
CallBad(tab, n, c, all, radius) ==
    IF Invalid(c, radius) THEN (IF c.r.ok THEN {"accepted"} ELSE {})
    ELSE IF ~c.r.ok THEN {"error"}
    ELSE IF \E i \in DOMAIN c.r.v: Len(c.r.v[i]) # n THEN {"length"}
    ELSE LET js == TLCEval(SetsOf(c.r.v)) IN
         IF {} \in Range0(js) THEN {"nothing"}
         ELSE IF ~Partitioned(js) THEN {"overlap"}
         ELSE IF \E i \in DOMAIN js: js[i] \notin all THEN {"jet-changed"}
         ELSE IF ~Falling(tab, js) THEN {"order"}
         ELSE CutsBad(tab, js, all, c)

(* The first call has no cuts: its jets are those of the algorithm.        *)
PlainBad(tab, e, js) ==
    IF ~Partitioned(js) THEN {"overlap"}
    ELSE IF UNION Range0(js) # 1..e.n THEN {"cover"}
    ELSE IF ~e.run THEN {}
    ELSE LET end == Jets(tab, e.n, Sq(e.radius)) IN
         IF end.sure /\ Range0(js) # end.jets THEN {"algorithm"} ELSE {}
JetsBad(e) ==
    LET tab == TLCEval([S \in {Range0(e.pj[i].s): i \in DOMAIN e.pj} |->
                        e.pj[CHOOSE i \in DOMAIN e.pj: Range0(e.pj[i].s) = S]])
        plain == e.calls[1]
        refused == Invalid(plain, e.radius)
        js == TLCEval(SetsOf(plain.r.v))
    IN  IF ~refused /\ plain.r.ok /\ ~(\A i \in DOMAIN plain.r.v: Len(plain.r.v[i]) = e.n) THEN {"length"}
        ELSE IF ~(\A S \in DOMAIN tab: tab[S].beam \/ WeightIs(tab[S].w, tab[S].pt, e.num, e.den, e.unit)) THEN {"witness"}
        ELSE UNION {CallBad(tab, e.n, e.calls[k], IF plain.r.ok THEN Range0(js) ELSE {}, e.radius): k \in DOMAIN e.calls}
             \cup (IF refused \/ ~plain.r.ok THEN {} ELSE PlainBad(tab, e, js))

Bad(e) ==
    AlwaysBad(e) \cup
    IF e.k # "jets" THEN {} ELSE JetsBad(e) \cup (IF e.same THEN {} ELSE {"input-changed"})
=============================================================================
