------------------------------- MODULE Shapes -------------------------------
(* C20: event shapes. Momenta are sequences of three whole numbers (Big).  *)
(* Lengths which are not whole come as witnesses, whose defining relation  *)
(* is checked here: `w` is the whole part of 10^9 |p|. Axes are in units   *)
(* of 10^-9, values too.                                                   *)
EXTENDS Big, Common

U == Ten(9)
DotB(a, b) == Add(Mul(a[1], b[1]), Add(Mul(a[2], b[2]), Mul(a[3], b[3])))
CrossB(a, b) == <<Sub(Mul(a[2], b[3]), Mul(a[3], b[2])), Sub(Mul(a[3], b[1]), Mul(a[1], b[3])),
                  Sub(Mul(a[1], b[2]), Mul(a[2], b[1]))>>
IsZeroV(a) == \A i \in 1..3: a[i][1] = 0
RootOf(r, x) == r[1] >= 0 /\ Leq(Sq(r), x) /\ Lt(x, Sq(Add(r, B(1))))
LengthsOk(e) == /\ Len(e.w) = Len(e.ms)
                /\ \A i \in DOMAIN e.ms: RootOf(e.w[i], Mul(DotB(e.ms[i], e.ms[i]), Ten(18)))
Collinear(ms) == \A i, j \in DOMAIN ms: IsZeroV(CrossB(ms[i], ms[j]))

(* C = 3 sum_{i<j} (|pi||pj| - (pi.pj)^2 / |pi||pj|) / (sum |p|)^2. The    *)
(* quotients come as witnesses too, in units of 10^-18.                    *)
PairsOf(ms) == {p \in (DOMAIN ms) \X (DOMAIN ms): p[1] < p[2]}
QuotientsOk(e) == \A p \in PairsOf(e.ms):
    LET q == e.q[p[1]][p[2]]
        d == TLCEval(Mul(e.w[p[1]], e.w[p[2]]))
        x == Mul(Sq(DotB(e.ms[p[1]], e.ms[p[2]])), Ten(36))
    IN  IF d[1] = 0 THEN q[1] = 0 ELSE q[1] >= 0 /\ Leq(Mul(q, d), x) /\ Lt(x, Mul(Add(q, B(1)), d))
CParameter(e) ==     \* 10^-9 (sum w)^2
    FoldSet(LAMBDA p, acc: Add(acc, Mul(Ten(9), Mul(B(3), Sub(Mul(e.w[p[1]], e.w[p[2]]), e.q[p[1]][p[2]])))), Zero, PairsOf(e.ms))
CParameterBad(e) ==
    IF ~(LengthsOk(e) /\ QuotientsOk(e)) THEN {"witness"}
    ELSE IF ~e.r.ok THEN {"c-error"}
    ELSE IF e.r.v.c # "fin" THEN {"c-value"}
    ELSE LET ww == TLCEval(Sq(SumB(e.w))) IN
         (IF NearB(Mul(e.r.v.v, ww), CParameter(e), Mul(B(50), ww)) THEN {} ELSE {"c-value"})
         \cup (IF BetweenB(e.r.v.v, B(-1), Add(U, B(1))) THEN {} ELSE {"c-range"})
         \cup (IF "num" \in DOMAIN e /\ ~NearB(Mul(e.r.v.v, B(e.den)), Mul(U, B(e.num)), Mul(B(2), B(e.den)))
               THEN {"c-model"} ELSE {})

UnitAxis(n) == NearB(DotB(n, n), Ten(18), Ten(10))
(* A probe is the axis turned by about 10^-3.                              *)
ProbeOk(m, n) == UnitAxis(m) /\ \A i \in 1..3: NearB(m[i], n[i], B(1200000))
ThrustSum(ms, n) == SumB([i \in DOMAIN ms |-> AbsB(DotB(ms[i], n))])
(* Nothing is asked of the optimum close to the pole of the coordinates.   *)
OffPole(n) == Lt(AbsB(n[3]), B(990000000))
(* ... nor where some momentum is perpendicular to the axis.               *)
NoKink(e, n) == \A i \in DOMAIN e.ms: e.w[i][1] = 0 \/ Lt(Mul(B(4), e.w[i]), Mul(B(1000), AbsB(DotB(e.ms[i], n))))
Gain == B(200)        \* 2 10^-4, in units of 10^-6

Repeats(e) == \A c \in Range0(e.calls):
    /\ c.ok /\ c.hex = e.calls[1].hex
    /\ c.axis # <<>> => c.axis = e.axis

(* An event has tries, from several first guesses. A line search may fail  *)
(* at a cusp, so an optimum is asked of half of the tries.                 *)
Half(e, ok(_)) == 2 * Cardinality({k \in DOMAIN e.tries: ok(e.tries[k])}) >= Len(e.tries)
Finite(t) == t.ok /\ t.v.c = "fin" /\ \A i \in 1..3: t.n[i].c = "fin"
AxisV(t) == [i \in 1..3 |-> t.n[i].v]

ThrustIs(e, t, w) == NearB(Mul(t.v.v, w), Mul(U, ThrustSum(e.ms, AxisV(t))), Mul(B(1000), w))
ThrustBest(e, t, w) ==
    LET n == AxisV(t)
        at == TLCEval(ThrustSum(e.ms, n))
    IN  ~(OffPole(n) /\ NoKink(e, n)) \/
        \A m \in Range0(t.probes): Leq(Mul(Sub(ThrustSum(e.ms, m), at), Ten(6)), Mul(Gain, w))
ThrustBad(e) ==
    IF ~LengthsOk(e) THEN {"witness"}
    ELSE IF ~(\A t \in Range0(e.tries): t.ok) THEN {"thrust-error"}
    ELSE IF ~(\A t \in Range0(e.tries): Finite(t)) THEN {"thrust-value"}
    ELSE LET w == TLCEval(SumB(e.w))
             pencil == Collinear(e.ms)
         IN  UNION {(IF UnitAxis(AxisV(t)) THEN {} ELSE {"axis-unit"})
                    \cup (IF ThrustIs(e, t, w) THEN {} ELSE {"thrust-value"})
                    \cup (IF BetweenB(t.v.v, B(0), Add(U, B(10))) THEN {} ELSE {"thrust-range"})
                    \cup (IF \A m \in Range0(t.probes): ProbeOk(m, AxisV(t)) THEN {} ELSE {"witness"}): t \in Range0(e.tries)}
             \cup (IF Half(e, LAMBDA t: ThrustBest(e, t, w)) THEN {} ELSE {"thrust-optimum"})
             \cup (IF ~pencil \/ Half(e, LAMBDA t: ~OffPole(AxisV(t)) \/ NearB(t.v.v, U, B(1000))) THEN {} ELSE {"thrust-pencil"})
             \cup (IF Repeats(e) THEN {} ELSE {"thrust-repeat"})

(* Whole parts of 10^9 |p x n| come as witnesses for the axis and probes.  *)
CrossOk(ms, n, cw) == Len(cw) = Len(ms) /\ \A i \in DOMAIN ms: LET c == CrossB(ms[i], n) IN RootOf(cw[i], DotB(c, c))
Sixteen == B(1621138938)     \* 10^9 (4 / pi)^2
SpherocityIs(e, t, ww) == NearB(Mul(t.v.v, ww), Mul(Sixteen, Sq(SumB(t.cw))), Mul(B(1000), ww))
SpherocityBest(e, t, ww) ==
    LET at == TLCEval(Mul(Sixteen, Sq(SumB(t.cw)))) IN
    ~OffPole(AxisV(t)) \/ \A k \in DOMAIN t.probes:
        Leq(Sub(at, Mul(Sixteen, Sq(SumB(t.pw[k])))), Mul(Mul(Gain, B(1000)), ww))
SpherocityBad(e) ==
    IF ~LengthsOk(e) THEN {"witness"}
    ELSE IF ~(\A t \in Range0(e.tries): t.ok) THEN {"spherocity-error"}
    ELSE IF ~(\A t \in Range0(e.tries): Finite(t)) THEN {"spherocity-value"}
    ELSE LET ww == TLCEval(Sq(SumB(e.w)))
             pencil == Collinear(e.ms)
         IN  UNION {(IF UnitAxis(AxisV(t)) THEN {} ELSE {"axis-unit"})
                    \cup (IF CrossOk(e.ms, AxisV(t), t.cw) /\ \A k \in DOMAIN t.probes:
                               ProbeOk(t.probes[k], AxisV(t)) /\ CrossOk(e.ms, t.probes[k], t.pw[k])
                          THEN {} ELSE {"witness"})
                    \cup (IF SpherocityIs(e, t, ww) THEN {} ELSE {"spherocity-value"})
                    \cup (IF BetweenB(t.v.v, B(0), Add(Sixteen, B(10))) THEN {} ELSE {"spherocity-range"}): t \in Range0(e.tries)}
             \cup (IF Half(e, LAMBDA t: SpherocityBest(e, t, ww)) THEN {} ELSE {"spherocity-optimum"})
             \cup (IF ~pencil \/ Half(e, LAMBDA t: ~OffPole(AxisV(t)) \/ NearB(t.v.v, Zero, B(1000))) THEN {} ELSE {"spherocity-pencil"})
             \cup (IF Repeats(e) THEN {} ELSE {"spherocity-repeat"})

Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k = "cpar" -> CParameterBad(e)
       [] e.k = "thrust" -> ThrustBad(e)
       [] e.k = "sphero" -> SpherocityBad(e)
       [] OTHER -> {})
    \cup (IF "same" \in DOMAIN e /\ ~e.same THEN {"input-changed"} ELSE {})
=============================================================================
