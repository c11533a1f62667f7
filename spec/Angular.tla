------------------------------- MODULE Angular ------------------------------
(* Angular geometry on the momentum lattice: a point is <<k, n, m, x>>     *)
(* with pt = 2^k, eta = n ln(2)/4, phi = m pi/16 and mass x pt; two more   *)
(* numbers displace eta and phi by multiples of 10^-8. The coarse distance *)
(* ignores them and is good to 1%; the fine one is good to 10^-10.         *)
EXTENDS Common
LOCAL Bg == INSTANCE Big

(* Difference of azimuths in lattice steps, at most half a turn.           *)
WrapPhi(d) == LET r == d % 32 IN IF r > 16 THEN 32 - r ELSE r
DPhi(a, b) == WrapPhi(a[3] - b[3])
DEta(a, b) == Abs(a[2] - b[2])

(* Squared distance in units of 10^-4: (ln(2)/4)^2 = 0.03002832,           *)
(* (pi/16)^2 = 0.03855314.                                                 *)
Square(n, unit) == (n * n * unit) \div 100
R2(a, b) == Square(DEta(a, b), 30028) + Square(DPhi(a, b), 38553)

(* pt^(2 p) for k = 0..5 relative to the largest, in units of 10^-6; the   *)
(* powers p are -1, -1/2, -1/10, 0, 1/10, 1/2, 1.                          *)
PowerTable ==
    <<<<1000000, 250000, 62500, 15625, 3906, 977>>,
      <<1000000, 500000, 250000, 125000, 62500, 31250>>,
      <<1000000, 870551, 757858, 659754, 574349, 500000>>,
      <<1000000, 1000000, 1000000, 1000000, 1000000, 1000000>>,
      <<500000, 574349, 659754, 757858, 870551, 1000000>>,
      <<31250, 62500, 125000, 250000, 500000, 1000000>>,
      <<977, 3906, 15625, 62500, 250000, 1000000>>>>
Weight2(power, a) == PowerTable[power][a[1] + 1]
(* Weighted squared distance of a parton and a hadron, units of 10^-7.     *)
Product(r, w) == r * (w \div 1000) + (r * (w % 1000)) \div 1000
Weighted2(power, parton, hadron) == Product(R2(parton, hadron), Weight2(power, parton))

(* Fine distances. Angles in units of 10^-14.                              *)
LOCAL EtaUnit == <<1, <<3999, 7951, 3286, 17>>>>
LOCAL PhiUnit == <<1, <<4936, 5408, 6349, 19>>>>
LOCAL Turn == Bg!Mul(Bg!B(32), PhiUnit)
LOCAL Nudge(a, i) == IF Len(a) < i THEN Bg!Zero ELSE Bg!Mul(Bg!B(a[i]), Bg!Ten(6))
FineEta(a, b) == Bg!Sub(Bg!Add(Bg!Mul(Bg!B(a[2] - b[2]), EtaUnit), Nudge(a, 5)), Nudge(b, 5))
FinePhi(a, b) ==
    LET steps == LET r == (a[3] - b[3]) % 32 IN IF r > 16 THEN r - 32 ELSE r
        x == Bg!AbsB(Bg!Sub(Bg!Add(Bg!Mul(Bg!B(steps), PhiUnit), Nudge(a, 6)), Nudge(b, 6)))
    IN  Bg!MinB(x, Bg!Sub(Turn, x))
(* pt^(2 p), up to a factor common to all, in units of 10^-12.             *)
LOCAL FifthRoots ==
    <<<<1, <<0, 0, 0, 1>>>>, <<1, <<4997, 9835, 1486, 1>>>>, <<1, <<773, 791, 3195, 1>>>>,
      <<1, <<6510, 1656, 5157, 1>>>>, <<1, <<6592, 112, 7411, 1>>>>, <<1, <<0, 0, 0, 2>>>>>>
FineWeight(power, k) ==
    LET two(n) == Bg!Mul(Bg!B(2^n), Bg!Ten(12)) IN
    CASE power = 1 -> two(2 * (5 - k))
      [] power = 2 -> two(5 - k)
      [] power = 3 -> FifthRoots[6 - k]
      [] power = 4 -> two(0)
      [] power = 5 -> FifthRoots[k + 1]
      [] power = 6 -> two(k)
      [] power = 7 -> two(2 * k)
(* Squares of distances in units of 10^-28, weighted ones of 10^-40.       *)
FineR2(a, b) == Bg!Add(Bg!Sq(FineEta(a, b)), Bg!Sq(FinePhi(a, b)))
Fine2(power, parton, hadron) == Bg!Mul(FineR2(parton, hadron), FineWeight(power, parton[1]))
(* The least of them, and all which arithmetic cannot tell from it.        *)
FineLeast(S, power, hadron) ==
    LET d == TLCEval([p \in S |-> Fine2(power, p, hadron)])
        least == CHOOSE x \in {d[p] : p \in S} : \A y \in {d[p] : p \in S} : Bg!Leq(x, y)
    IN  {p \in S : Bg!Leq(Bg!Mul(Bg!Sub(d[p], least), Bg!Ten(10)), Bg!Add(least, Bg!Ten(28)))}
(* Whether two squares (units of 10^-28) cannot be told apart.             *)
FineEdge(r2, radius2) == Bg!Leq(Bg!Mul(Bg!AbsB(Bg!Sub(r2, radius2)), Bg!Ten(10)), Bg!Add(radius2, Bg!Ten(17)))
FineBelow(r2, radius2) == Bg!Lt(r2, radius2)
(* d (units of 10^-15) squared is the weighted square.                           *)
FineIs(d, power, parton, hadron) ==
    LET w == Fine2(power, parton, hadron) IN
    Bg!Leq(Bg!Mul(Bg!AbsB(Bg!Sub(Bg!Mul(Bg!Sq(d), Bg!Ten(10)), w)), Bg!Ten(9)), Bg!Add(w, Bg!Ten(29)))
=============================================================================
