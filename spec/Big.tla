--------------------------------- MODULE Big --------------------------------
(* Integers of any size, as <<sign, limbs>>: the sign is -1, 0 or 1 and    *)
(* the limbs are base 10^4, least significant first, without zeros on top. *)
(* Measured quantities are fixed-point numbers: an integer count of a unit *)
(* which each use states.                                                  *)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt

Base == 10000
Zero == <<0, <<>>>>
LOCAL Digit(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE TrimTo(_, _)
TrimTo(m, n) == IF n = 0 THEN <<>> ELSE IF m[n] # 0 THEN SubSeq(m, 1, n) ELSE TrimTo(m, n - 1)
Trim(m) == TrimTo(m, Len(m))

(* Propagates carries through (possibly negative) coefficients.            *)
LOCAL CarryStep(acc, x) ==
    LET t == x + acc[2] IN <<Append(acc[1], t % Base), t \div Base>>
RECURSIVE Spill(_, _)
Spill(m, c) == IF c = 0 THEN m ELSE Spill(Append(m, c % Base), c \div Base)
Carry(cs) ==
    LET r == TLCEval(FoldLeft(CarryStep, <<<<>>, 0>>, cs)) IN Trim(Spill(r[1], r[2]))

MaxLen(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)
MagAdd(a, b) == Carry([i \in 1..MaxLen(a, b) |-> Digit(a, i) + Digit(b, i)])
MagSub(a, b) == Carry([i \in 1..Len(a) |-> Digit(a, i) - Digit(b, i)])   \* a >= b
RECURSIVE MagCmpAt(_, _, _)
MagCmpAt(a, b, i) ==
    IF i = 0 THEN 0 ELSE IF a[i] > b[i] THEN 1 ELSE IF a[i] < b[i] THEN -1 ELSE MagCmpAt(a, b, i - 1)
MagCmp(a, b) ==
    IF Len(a) > Len(b) THEN 1 ELSE IF Len(a) < Len(b) THEN -1 ELSE MagCmpAt(a, b, Len(a))
(* At most twenty products of limbs meet in one coefficient.               *)
MagMul(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |->
            LET lo == IF k > Len(b) THEN k - Len(b) + 1 ELSE 1
                hi == IF k < Len(a) THEN k ELSE Len(a)
            IN  FoldLeft(LAMBDA s, i: s + a[i] * b[k - i + 1], 0, [j \in 1..(hi - lo + 1) |-> lo + j - 1])])

Neg(x) == <<-x[1], x[2]>>
AbsB(x) == <<x[1] * x[1], x[2]>>
Add(x, y) ==
    IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
    ELSE IF x[1] = y[1] THEN TLCEval(<<x[1], MagAdd(x[2], y[2])>>)
    ELSE LET c == MagCmp(x[2], y[2]) IN
         IF c = 0 THEN Zero
         ELSE IF c > 0 THEN TLCEval(<<x[1], MagSub(x[2], y[2])>>)
         ELSE TLCEval(<<y[1], MagSub(y[2], x[2])>>)
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == IF x[1] * y[1] = 0 THEN Zero ELSE TLCEval(<<x[1] * y[1], MagMul(x[2], y[2])>>)
Sq(x) == Mul(x, x)
Cmp(x, y) ==
    IF x[1] # y[1] THEN (IF x[1] > y[1] THEN 1 ELSE -1)
    ELSE IF x[1] = 0 THEN 0 ELSE x[1] * MagCmp(x[2], y[2])
Leq(x, y) == Cmp(x, y) <= 0
Lt(x, y) == Cmp(x, y) < 0
MaxB(x, y) == IF Leq(x, y) THEN y ELSE x
MinB(x, y) == IF Leq(x, y) THEN x ELSE y

RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o MagOf(n \div Base)
B(n) == IF n = 0 THEN Zero ELSE IF n > 0 THEN <<1, MagOf(n)>> ELSE <<-1, MagOf(-n)>>
(* x * 10^(4 k)                                                            *)
Shift(x, k) == IF x[1] = 0 THEN x ELSE <<x[1], [i \in 1..k |-> 0] \o x[2]>>
Ten(k) ==
    LET q == k \div 4 IN
    Shift(B(CASE k % 4 = 0 -> 1 [] k % 4 = 1 -> 10 [] k % 4 = 2 -> 100 [] k % 4 = 3 -> 1000), q)
RECURSIVE PowTwo(_)
PowTwo(k) == IF k <= 20 THEN B(2^k) ELSE Mul(B(2^20), PowTwo(k - 20))

SumB(s) == FoldLeft(LAMBDA acc, x: Add(acc, x), Zero, s)
(* |x - y| <= tol                                                          *)
NearB(x, y, tol) == Leq(AbsB(Sub(x, y)), tol)
(* |x - y| <= scale / 10^d                                                 *)
CloseB(x, y, scale, d) == Leq(Mul(AbsB(Sub(x, y)), Ten(d)), scale)
BetweenB(x, lo, hi) == Leq(lo, x) /\ Leq(x, hi)
=============================================================================
