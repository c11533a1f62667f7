------------------------------- MODULE MC_Big -------------------------------
(* The arithmetic of Big agrees with that of the integers.                 *)
EXTENDS Big, FiniteSets
CONSTANT Vals
VARIABLES x, y
Pool == {0, 1, -1, 7, 9999, 10000, -10001, 46340, -46339, 30007, 12345, -99}
Init == x \in Vals /\ y \in Vals
Next == FALSE /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Agrees ==
    /\ Add(B(x), B(y)) = B(x + y)
    /\ Sub(B(x), B(y)) = B(x - y)
    /\ Mul(B(x), B(y)) = B(x * y)
    /\ Cmp(B(x), B(y)) = (IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0)
    /\ Leq(B(x), B(y)) = (x <= y)
Laws ==
    LET X == Mul(B(x), Mul(B(y), B(12345678)))  Y == Mul(B(y), Ten(13))  Z == Mul(B(x), B(-98765432))
    IN  /\ Mul(X, Add(Y, Z)) = Add(Mul(X, Y), Mul(X, Z))
        /\ Sub(Add(X, Y), Y) = X
        /\ Mul(Mul(X, Y), Z) = Mul(X, Mul(Y, Z))
        /\ Leq(Zero, Sq(X))
        /\ Mul(PowTwo(43), PowTwo(27)) = PowTwo(70)
        /\ Mul(Ten(7), Ten(6)) = Ten(13)
=============================================================================
