-------------------------------- MODULE Boosts ------------------------------
(* C08: rotations about the beam, longitudinal boosts, and shifts of the   *)
(* pseudorapidity.                                                         *)
(*                                                                         *)
(* On the lattice a particle is [x, y, p, q], p = E + z and q = E - z:     *)
(* turning by a quarter and boosting by ln 2 keep all four whole, so that  *)
(* sequences of shifts are decided exactly. Elsewhere a shift is judged by *)
(* the relation between the components before it (whole numbers) and after *)
(* it (counts of 10^-9 units), given its cosine and sine or exponential.   *)
EXTENDS Momentum, Common

(* -- lattice -------------------------------------------------------------*)
Turn(v) == [v EXCEPT !.x = -v.y, !.y = v.x]
RECURSIVE TurnBy(_, _)
TurnBy(v, n) == IF n % 4 = 0 THEN v ELSE TurnBy(Turn(v), (n % 4) - 1)
Halve(x, n) == x \div (2^n)
BoostBy(v, n) ==
    IF n >= 0 THEN [v EXCEPT !.p = v.p * 2^n, !.q = Halve(v.q, n)]
    ELSE [v EXCEPT !.p = Halve(v.p, -n), !.q = v.q * 2^(-n)]
CanBoost(v, n) == IF n >= 0 THEN v.q % (2^n) = 0 ELSE v.p % (2^(-n)) = 0
(* One shift of every particle i by n[i] steps.                            *)
Apply(vs, kind, n) == [i \in DOMAIN vs |-> IF kind = "phi" THEN TurnBy(vs[i], n[i]) ELSE BoostBy(vs[i], n[i])]
PtSq(v) == v.x * v.x + v.y * v.y
MassSq(v) == v.p * v.q - PtSq(v)

(* The states a sequence of shifts goes through.                           *)
RECURSIVE Run(_, _)
Run(vs, ops) == IF ops = <<>> THEN <<>>
                ELSE LET next == TLCEval(Apply(vs, ops[1].kind, ops[1].n)) IN <<next>> \o Run(next, Tail(ops))

(* -- measured values -----------------------------------------------------*)
Nano == Ten(9)
Ten21 == Ten(21)
IsFin(v) == v.c = "fin"
Same(v, b) == IsFin(v) /\ v.v = Mul(b, Nano)
(* Twice a component is a whole number n of units, up to 10^-6 of a unit.  *)
AtHalf(v, n, size) ==
    IsFin(v) /\ NearB(Mul(B(2), v.v), Mul(B(n), Nano), Add(B(2000), Mul(B(2), B(size))))
LatticeIs(r, v) ==
    LET size == Abs(v.x) + Abs(v.y) + v.p + v.q IN
    /\ AtHalf(r.x, 2 * v.x, size) /\ AtHalf(r.y, 2 * v.y, size)
    /\ AtHalf(r.e, v.p + v.q, size) /\ AtHalf(r.z, v.p - v.q, size)

(* Rotation: cosine and sine in units of 10^-12.                           *)
RotatedIs(r, m, a) ==
    LET size == Add(B(10), Relative(Mul(Add(AbsB(m.x), AbsB(m.y)), Nano), 2))
        tol == Mul(size, Mul(Ten(3), Nano))    \* 10^-9 relative, at 10^21 per unit
    IN  /\ IsFin(r.x) /\ IsFin(r.y)
        /\ NearB(Mul(r.x.v, Ten12), Mul(Sub(Mul(a.co, m.x), Mul(a.si, m.y)), Nano), tol)
        /\ NearB(Mul(r.y.v, Ten12), Mul(Add(Mul(a.si, m.x), Mul(a.co, m.y)), Nano), tol)
        /\ Same(r.z, m.z) /\ Same(r.e, m.e)

(* Boost: h.up = exp(shift), h.down = exp(-shift), in units of 10^-12;     *)
(* h.amp bounds the growth of float errors along the way.                  *)
Plus(m) == Add(m.e, m.z)
Minus(m) == Sub(m.e, m.z)
BoostedIs(r, m, h) ==
    LET grown == Mul(B(h.amp), Add(AbsB(m.e), AbsB(m.z)))
        tol == Mul(Add(Mul(grown, Nano), Ten(12)), B(2))   \* 10^-12 of what may cancel, and rounding
    IN  /\ IsFin(r.e) /\ IsFin(r.z) /\ Same(r.x, m.x) /\ Same(r.y, m.y)
        /\ NearB(Mul(Add(r.e.v, r.z.v), Ten12), Mul(Mul(h.up, Plus(m)), Nano), Mul(tol, Ten(1)))
        /\ NearB(Mul(Sub(r.e.v, r.z.v), Ten12), Mul(Mul(h.down, Minus(m)), Nano), Mul(tol, Ten(1)))

(* Whole parts of roots given as witnesses.                                *)
RootOf(w, sq) == w[1] >= 0 /\ Leq(Sq(w), sq) /\ Lt(sq, Sq(Add(w, One)))
(* size of the three-momentum, in nano units, of whole components and of   *)
(* measured ones.                                                          *)
Norm2(r) == Add(Sq(r.x.v), Add(Sq(r.y.v), Sq(r.z.v)))

(* (P + Z) grows by exp(shift) and (P - Z) shrinks by it: the              *)
(* pseudorapidity of (.., Z) of size P increases by the shift. Both are in *)
(* nano units; errors are relative to the larger.                          *)
EtaShifted(p1, z1, p2, z2, h, digits) ==
    /\ NearB(Mul(Add(p2, z2), Ten12), Mul(h.up, Add(p1, z1)),
             Add(Relative(Mul(Mul(Add(p2, p1), Ten12), B(h.amp)), digits), Mul(Ten(13), B(h.amp))))
    /\ NearB(Mul(Sub(p2, z2), Ten12), Mul(h.down, Sub(p1, z1)),
             Add(Relative(Mul(Mul(Add(p2, p1), Ten12), B(h.amp)), digits), Mul(Ten(13), B(h.amp))))

(* All particles are boosted alike: E + z scales as the total does, E - z  *)
(* inversely.                                                              *)
Alike(r, m, sums) ==
    LET tol(a, b) == Add(Relative(Mul(Add(a, b), Add(sums.after, sums.before)), 2),
                         Mul(Add(sums.after, sums.before), B(100)))
        p == Mul(Plus(m), Nano)
        q == Mul(Minus(m), Nano)
        p2 == Add(r.e.v, r.z.v)
        q2 == Sub(r.e.v, r.z.v)
    IN  /\ IsFin(r.e) /\ IsFin(r.z) /\ Same(r.x, m.x) /\ Same(r.y, m.y)
        /\ NearB(Mul(p2, sums.before), Mul(p, sums.after), tol(AbsB(r.e.v), Mul(m.e, Nano)))
        /\ NearB(Mul(q2, sums.after), Mul(q, sums.before), tol(AbsB(r.e.v), Mul(m.e, Nano)))
SumV(rs) == [x |-> [v |-> SumB([i \in DOMAIN rs |-> rs[i].x.v])], y |-> [v |-> SumB([i \in DOMAIN rs |-> rs[i].y.v])],
             z |-> [v |-> SumB([i \in DOMAIN rs |-> rs[i].z.v])], e |-> [v |-> SumB([i \in DOMAIN rs |-> rs[i].e.v])]]
SumBoosted(rs, ms, h, w1, w2) ==
    LET t1 == TLCEval(SumM(ms))
        t2 == TLCEval(SumV(rs))
        sums == TLCEval([before |-> Mul(Plus(t1), Nano), after |-> Add(t2.e.v, t2.z.v)])
    IN  /\ RootOf(w1, Mul(P2(t1), Ten(18))) /\ RootOf(w2, Norm2(t2))
        /\ \A i \in DOMAIN ms: Alike(rs[i], ms[i], sums)
        /\ EtaShifted(w1, Mul(t1.z, Nano), w2, t2.z.v, h, 2)

Experimental(r, m, h, w1, w2) ==
    /\ r.e.c = "nan" /\ Same(r.x, m.x) /\ Same(r.y, m.y)
    /\ Pt2(m)[1] = 0 \/
        /\ IsFin(r.z) /\ RootOf(w1, Mul(P2(m), Ten(18))) /\ RootOf(w2, Norm2(r))
        /\ EtaShifted(w1, Mul(m.z, Nano), w2, r.z.v, h, 2)

RowsBad(e, Ok(_)) ==
    IF ~e.r.ok THEN {e.k \o "-error"}
    ELSE IF Len(e.r.v) # Len(e.ms) THEN {e.k \o "-length"}
    ELSE IF \A i \in DOMAIN e.ms: Ok(i) THEN {} ELSE {e.k \o "-value"}

WalkBad(e) ==
    LET want == TLCEval(Run(e.start, e.ops)) IN
    UNION {IF ~e.after[j].ok THEN {"walk-error"}
           ELSE IF Len(e.after[j].v) # Len(e.start) THEN {"walk-length"}
           ELSE IF \A i \in DOMAIN e.start: LatticeIs(e.after[j].v[i], want[j][i]) THEN {} ELSE {"walk-" \o e.ops[j].kind}
           : j \in DOMAIN e.ops}

Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k = "walk" -> WalkBad(e)
       [] e.k = "phi" -> RowsBad(e, LAMBDA i: RotatedIs(e.r.v[i], e.ms[i], e.by[i]))
       [] e.k = "rap" -> RowsBad(e, LAMBDA i: BoostedIs(e.r.v[i], e.ms[i], e.by[i]))
       [] e.k = "eta" -> IF ~e.r.ok THEN {"eta-error"}
                         ELSE IF Len(e.r.v) # Len(e.ms) THEN {"eta-length"}
                         ELSE IF SumBoosted(e.r.v, e.ms, e.by[1], e.w1, e.w2) THEN {} ELSE {"eta-value"}
       [] e.k = "exp" -> RowsBad(e, LAMBDA i: Experimental(e.r.v[i], e.ms[i], e.by[i], e.w1[i], e.w2[i]))
       [] OTHER -> {})
    \cup (IF "same" \in DOMAIN e /\ ~e.same THEN {"input-changed"} ELSE {})
=============================================================================
