------------------------------ MODULE Momentum ------------------------------
(* Four-momenta whose components are whole numbers of a unit 2^s, and the  *)
(* relations which define the quantities derived from them. Each relation  *)
(* is between whole numbers: it is decided exactly, up to a stated         *)
(* tolerance for the rounding of floats. A momentum is [x, y, z, e], each  *)
(* a Big; see harness/big.py for the forms of measured values.             *)
EXTENDS Big

Pt2(m) == Add(Sq(m.x), Sq(m.y))
P2(m) == Add(Pt2(m), Sq(m.z))
Mass2(m) == Sub(Sq(m.e), P2(m))
MassT2(m) == Sub(Sq(m.e), Sq(m.z))
AddM(a, b) == [x |-> Add(a.x, b.x), y |-> Add(a.y, b.y), z |-> Add(a.z, b.z), e |-> Add(a.e, b.e)]
ZeroM == [x |-> Zero, y |-> Zero, z |-> Zero, e |-> Zero]
SumM(ms) ==
    [x |-> SumB([i \in 1..Len(ms) |-> ms[i].x]), y |-> SumB([i \in 1..Len(ms) |-> ms[i].y]),
     z |-> SumB([i \in 1..Len(ms) |-> ms[i].z]), e |-> SumB([i \in 1..Len(ms) |-> ms[i].e])]

One == B(1)
Ten12 == Ten(12)
(* A square against its value: rounding of the root to a whole number, and *)
(* of floats, relative to `size`.                                          *)
SquareIs(root, value, size) ==
    NearB(Mul(B(root[1]), Sq(root)), value,
          Add(Mul(B(8), Add(AbsB(root), One)), size))
Relative(x, d) == <<x[1], IF Len(x[2]) <= d THEN <<>> ELSE SubSeq(x[2], d + 1, Len(x[2]))>>   \* x / 10^(4 d), rounded down
Tiny(x, d) == LET y == Relative(AbsB(x), d) IN IF y[2] = <<>> THEN Zero ELSE y

(* Roots in units of 10^-6.                                                *)
PtIs(v, m) == v.c = "fin" /\ SquareIs(v.v, Mul(Pt2(m), Ten12), Tiny(Mul(Pt2(m), Ten12), 3))
MassIs(v, m) == v.c = "fin" /\ SquareIs(v.v, Mul(Mass2(m), Ten12), MaxB(Sq(m.e), P2(m)))
MassTIs(v, m) == v.c = "fin" /\ SquareIs(v.v, Mul(MassT2(m), Ten12), MaxB(Sq(m.e), Sq(m.z)))

(* Sizes against a threshold of 10^-10 when the unit is 2^s; nothing is    *)
(* asked within a factor of ten of it.                                     *)
SqBelow(sq, s) == IF s >= 0 THEN sq[1] = 0 ELSE Lt(Mul(sq, Ten(22)), PowTwo(-2 * s))
SqAbove(sq, s) == IF s >= 0 THEN sq[1] > 0 ELSE Lt(PowTwo(-2 * s), Mul(sq, Ten(18)))

(* (cos, sin) of an angle in units of 10^-12 points along (a, b).          *)
Along(v, a, b, slack) ==
    LET size == Add(AbsB(a), AbsB(b)) IN
    /\ NearB(Mul(v.co, b), Mul(v.si, a), Add(slack, Mul(B(20), size)))
    /\ Lt(Zero, Add(Mul(v.co, a), Mul(v.si, b)))
HalfTurn == 314159266
PhiIs(v, m, s) ==
    IF SqBelow(Pt2(m), s) THEN v.c = "nan"
    ELSE IF SqAbove(Pt2(m), s) THEN v.c = "fin" /\ v.a \in -HalfTurn..HalfTurn /\ Along(v, m.x, m.y, Zero)
    ELSE TRUE
(* A momentum may carry a witness rt: the whole part of 10^6 pt.           *)
WitnessOk(m) ==
    LET x == Mul(Pt2(m), Ten12) IN
    m.rt[1] >= 0 /\ Leq(Sq(m.rt), x) /\ Lt(x, Sq(Add(m.rt, One)))

ThetaIs(v, m) ==
    P2(m)[1] = 0 \/
    (v.c = "fin" /\ v.a \in 0..HalfTurn /\ Along(v, Mul(m.z, Ten(6)), m.rt, Ten12))

SignOf(c) == IF c = "+inf" THEN 1 ELSE IF c = "-inf" THEN -1 ELSE 0
(* sinh(eta) = z / pt, in units of 10^-9; the relative error of floats     *)
(* grows as (p / pt)^2.                                                    *)
EtaIs(v, m) ==
    IF P2(m)[1] = 0 THEN TRUE
    ELSE IF Pt2(m)[1] = 0 THEN SignOf(v.c) = m.z[1]
    ELSE IF Leq(Mul(Pt2(m), Ten12), P2(m)) THEN v.c = "big" \/ SignOf(v.c) = m.z[1] \/ (v.c = "fin" /\ v.v[1] = m.z[1])
    ELSE /\ v.c = "fin"
         /\ LET p == m.rt
                want == Mul(m.z, Ten(15))
            IN  Leq(Mul(AbsB(Sub(Mul(v.v, p), want)), Mul(Pt2(m), Ten(14))),
                    Add(Mul(AbsB(want), Add(Mul(Pt2(m), Ten(4)), P2(m))),
                        Mul(Mul(B(2), Add(p, AbsB(v.v))), Mul(Pt2(m), Ten(14)))))

(* exp(2 |y|) = (E + |z|) / (E - |z|).                                     *)
RapidityIs(v, m, s) ==
    LET d == Sub(m.e, AbsB(m.z))
        t == Add(m.e, AbsB(m.z))
    IN  IF d[1] < 0 /\ ~SqBelow(Sq(d), s) THEN TRUE
        ELSE IF ~SqAbove(Sq(m.e), s - 13) THEN TRUE    \* energies near the threshold itself
        ELSE IF SqBelow(Sq(d), s) THEN SignOf(v.c) = m.z[1]
        ELSE IF SqAbove(Sq(d), s)
        THEN /\ v.c = "fin"
             /\ v.sg = m.z[1] \/ (v.sg = 0 /\ NearB(v.v, Ten(9), One))
             /\ LET left == Mul(Sq(v.v), d)
                    right == Mul(t, Ten(18))
                IN  NearB(left, right, Add(Tiny(right, 2), Mul(Mul(B(4), v.v), d)))
        ELSE TRUE
=============================================================================
