------------------------------ MODULE Rotation ------------------------------
(* C19: rotation of a vector about an axis, and the splitting of momenta.  *)
(* A 3-vector is a sequence of three Bigs. An axis is a vector `n` whose   *)
(* length is `unit`; an angle is (co, si) in the circle of radius `circle`.*)
EXTENDS Momentum, Common

Dot(a, b) == Add(Mul(a[1], b[1]), Add(Mul(a[2], b[2]), Mul(a[3], b[3])))
Cross(a, b) == TLCEval(<<Sub(Mul(a[2], b[3]), Mul(a[3], b[2])),
                         Sub(Mul(a[3], b[1]), Mul(a[1], b[3])),
                         Sub(Mul(a[1], b[2]), Mul(a[2], b[1]))>>)
Scale(a, k) == TLCEval([i \in 1..3 |-> Mul(a[i], k)])
AddV(a, b) == TLCEval([i \in 1..3 |-> Add(a[i], b[i])])
NullV == <<Zero, Zero, Zero>>
BasisV(j) == [i \in 1..3 |-> IF i = j THEN One ELSE Zero]
ReachV(a) == Add(AbsB(a[1]), Add(AbsB(a[2]), AbsB(a[3])))

(* Rodrigues: p cos + (n x p) sin + n (n . p) (1 - cos), in units of       *)
(* 1 / (unit^2 circle).                                                    *)
Rotate(p, n, unit, co, si, circle) ==
    AddV(Scale(p, Mul(co, Sq(unit))),
         AddV(Scale(Cross(n, p), Mul(si, unit)),
              Scale(n, Mul(Dot(n, p), Sub(circle, co)))))

(* Unit axis of an inclination and an azimuth, in units of 10^-12.         *)
AxisOf(th, ph) == TLCEval(<<Relative(Mul(th.si, ph.co), 3), Relative(Mul(th.si, ph.si), 3), th.co>>)
Turned(p, e) == Rotate(p, e.axis, Ten12, e.turn.co, e.turn.si, Ten12)      \* units 10^-36
Slack == 9
CloseV(a, b, size) == \A i \in 1..3: Leq(Mul(AbsB(Sub(a[i], b[i])), Ten(Slack)), size)

AngleOk(a) == a.c = "fin" /\ NearB(Add(Sq(a.co), Sq(a.si)), Ten(24), Ten(14))
Fin3(v) == \A i \in 1..3: v[i].c = "fin"
Vals(v) == [i \in DOMAIN v |-> v[i].v]

MatrixBad(e) ==
    IF ~e.r.ok THEN {"matrix-error"}
    ELSE LET ee == [axis |-> AxisOf(e.th, e.ph), turn |-> e.turn]
             col(j) == <<e.r.v[1][j], e.r.v[2][j], e.r.v[3][j]>>
         IN  IF \A j \in 1..3: Fin3(col(j)) /\ CloseV(Scale(Vals(col(j)), Ten(24)), Turned(BasisV(j), ee), Ten(36))
             THEN {} ELSE {"matrix-value"}

(* Momenta and children are <<x, y, z, e>>; children in units of 10^-18,   *)
(* the fraction too.                                                       *)
V3(m) == <<m[1], m[2], m[3]>>
Size4(m) == Add(ReachV(V3(m)), AbsB(m[4]))
FirstIs(child, parent, e, axis) ==
    LET share == Mul(Size4(parent), e.z)
        ee == [axis |-> axis, turn |-> e.turn]
    IN  /\ CloseV(Scale(V3(Vals(child)), Ten(36)), Scale(Turned(V3(parent), ee), e.z), Mul(share, Ten(36)))
        /\ Leq(Mul(AbsB(Sub(child[4].v, Mul(parent[4], e.z))), Ten(11)), share)
Conserves(first, second, parent) ==
    \A i \in 1..4: Leq(Mul(AbsB(Sub(Add(first[i].v, second[i].v), Mul(parent[i], Ten(18)))), Ten(13)), Mul(Size4(parent), Ten(18)))
Fin4(v) == Len(v) = 4 /\ \A i \in 1..4: v[i].c = "fin"

SplitBad(e) ==
    IF e.refuse THEN (IF e.r.ok THEN {"split-accepted"} ELSE {})
    ELSE IF ~e.r.ok THEN {"split-error"}
    ELSE IF Len(e.r.v) # 2 \/ ~(\A j \in 1..2: Fin4(e.r.v[j])) THEN {"split-shape"}
    ELSE (IF Conserves(e.r.v[1], e.r.v[2], e.p) THEN {} ELSE {"split-sum"})
         \cup (IF FirstIs(e.r.v[1], e.p, e, AxisOf(e.th, e.ph)) THEN {} ELSE {"split-first"})

PtSqOf(m) == Add(Sq(m[1]), Sq(m[2]))
(* Floats cannot tell apart transverse momenta within 10^-15.              *)
Hardest(ms) == {i \in DOMAIN ms: \A j \in DOMAIN ms: Leq(PtSqOf(ms[j]), Add(PtSqOf(ms[i]), Tiny(PtSqOf(ms[i]), 3)))}
Softest(ms) == {i \in DOMAIN ms: \A j \in DOMAIN ms: Leq(PtSqOf(ms[i]), Add(PtSqOf(ms[j]), Tiny(PtSqOf(ms[j]), 3)))}
Normal(ms, i, j) == Cross(V3(ms[i]), V3(ms[j]))

(* The direction of the reported axis is that of soft x hard.              *)
AxisBad(e) ==
    IF ~e.r.ok THEN {"axis-error"}
    ELSE IF ~(AngleOk(e.r.v.th) /\ AngleOk(e.r.v.ph)) THEN {"axis-value"}
    ELSE LET n == AxisOf(e.r.v.th, e.r.v.ph)
             Fits(i, j) == LET k == Normal(e.ms, i, j) IN
                 \/ k = NullV
                 \/ /\ Lt(Zero, Dot(n, k))
                    /\ Leq(Mul(ReachV(Cross(n, k)), Ten(Slack)), Mul(ReachV(k), Ten12))
         IN  IF \E i \in Softest(e.ms), j \in Hardest(e.ms): Fits(i, j) THEN {} ELSE {"axis-direction"}

(* k / |k| in units of 10^-12, from a witness of the length of k 10^12.    *)
NormalOk(k, w) == w[1] > 0 /\ Leq(Sq(w), Mul(Dot(k, k), Ten(24))) /\ Lt(Mul(Dot(k, k), Ten(24)), Sq(Add(w, One)))
(* Rotation about k of length |k| = w / 10^12.                             *)
TurnedAbout(p, k, w, turn) ==     \* units 10^-12 w^2
    AddV(Scale(p, Mul(turn.co, Sq(w))),
         AddV(Scale(Cross(Scale(k, Ten12), p), Mul(turn.si, w)),
              Scale(Scale(k, Ten(24)), Mul(Dot(k, p), Sub(Ten12, turn.co)))))
FirstAbout(child, parent, e, k) ==
    IF k = NullV THEN      \* no plane: some rotation
        /\ Leq(Mul(AbsB(Sub(Dot(V3(Vals(child)), V3(Vals(child))), Mul(Dot(V3(parent), V3(parent)), Sq(e.z)))), Ten(Slack)),
               Mul(Sq(Size4(parent)), Sq(e.z)))
        /\ Leq(Mul(AbsB(Sub(child[4].v, Mul(parent[4], e.z))), Ten(11)), Mul(Size4(parent), e.z))
    ELSE \E w \in Range0(e.lengths):
        /\ NormalOk(k, w)
        /\ CloseV(Scale(V3(Vals(child)), Mul(Ten12, Sq(w))), Scale(TurnedAbout(V3(parent), k, w, e.turn), e.z),
                  Mul(Mul(Size4(parent), e.z), Mul(Ten12, Sq(w))))
        /\ Leq(Mul(AbsB(Sub(child[4].v, Mul(parent[4], e.z))), Ten(11)), Mul(Size4(parent), e.z))

HardestBad(e) ==
    IF e.refuse THEN (IF e.r.ok THEN {"hardest-accepted"} ELSE {})
    ELSE IF ~e.r.ok THEN {"hardest-error"}
    ELSE IF Len(e.r.v) # Len(e.ms) + 1 \/ ~(\A j \in DOMAIN e.r.v: Fin4(e.r.v[j])) THEN {"hardest-shape"}
    ELSE
    LET n == Len(e.ms)
        KeptBut(h) == \A i \in 1..(n - 1): LET m == e.ms[IF i < h THEN i ELSE i + 1] IN
                          \A a \in 1..4: e.r.v[i][a].v = Mul(m[a], Ten(18))
        Child(h) == IF e.given THEN FirstIs(e.r.v[n], e.ms[h], e, AxisOf(e.th, e.ph))
                    ELSE \E i \in Softest(e.ms), j \in Hardest(e.ms): FirstAbout(e.r.v[n], e.ms[h], e, Normal(e.ms, i, j))
        Hs == {h \in Hardest(e.ms): KeptBut(h)}
    IN  IF Hs = {} THEN {"hardest-others"}
        ELSE IF \E h \in Hs: Conserves(e.r.v[n], e.r.v[n + 1], e.ms[h]) /\ Child(h) THEN {}
        ELSE (IF \E h \in Hs: Conserves(e.r.v[n], e.r.v[n + 1], e.ms[h]) THEN {} ELSE {"hardest-sum"})
             \cup (IF \E h \in Hs: Child(h) THEN {} ELSE {"hardest-first"})
             \cup {"hardest-children"}

Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k = "matrix" -> MatrixBad(e)
       [] e.k = "split" -> SplitBad(e)
       [] e.k = "axis" -> AxisBad(e)
       [] e.k = "hardest" -> HardestBad(e)
       [] OTHER -> {})
    \cup (IF "same" \in DOMAIN e /\ ~e.same THEN {"input-changed"} ELSE {})
=============================================================================
