------------------------------ MODULE MC_Shapes ------------------------------
(* Every sequence of a few momenta of whole length: the C-parameter is a   *)
(* ratio of whole numbers, within [0, 1], nought exactly for momenta along *)
(* one line, and unchanged by reordering, doubling, scaling and turning;   *)
(* thrust along any axis is at most one, and one exactly when all momenta  *)
(* are along the axis. Each set is replayed in the code with its value.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Emit
VARIABLE ms

Vectors == {<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 1>>, <<0, 0, -1>>, <<1, 2, 2>>, <<2, -1, 2>>, <<-2, -2, 1>>, <<0, 0, 0>>, <<0, 2, 0>>}
NormOf(v) == LET q == v[1] * v[1] + v[2] * v[2] + v[3] * v[3] IN
             CASE q = 0 -> 0 [] q = 1 -> 1 [] q = 4 -> 2 [] q = 9 -> 3
DotI(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
RECURSIVE AddUp(_)
AddUp(q) == IF q = <<>> THEN 0 ELSE q[1] + AddUp(Tail(q))
SumTo(f(_), n) == AddUp([i \in 1..n |-> f(i)])
Norms(s) == SumTo(LAMBDA i: NormOf(s[i]), Len(s))
Pair(a, b) == LET w == NormOf(a) * NormOf(b) IN
              IF w = 0 THEN 0 ELSE 36 * w - (DotI(a, b) * DotI(a, b) * 36) \div w
Num(s) == 3 * SumTo(LAMBDA i: SumTo(LAMBDA j: Pair(s[i], s[j]), i - 1), Len(s))
Den(s) == 36 * Norms(s) * Norms(s)

Init == ms = <<>>
Next == \E v \in Vectors:
    /\ Len(ms) < N
    /\ ms' = Append(ms, v)
    /\ (Emit /\ Norms(ms') > 0) => PrintT("CASE " \o ToJson([ms |-> ms', num |-> Num(ms'), den |-> Den(ms')]))
Spec == Init /\ [][Next]_ms

Same(s, t) == Num(s) * Den(t) = Num(t) * Den(s)
Parallel(a, b) == a[2] * b[3] = a[3] * b[2] /\ a[3] * b[1] = a[1] * b[3] /\ a[1] * b[2] = a[2] * b[1]
OneLine == \A i, j \in DOMAIN ms: Parallel(ms[i], ms[j])
Range01 == 0 <= Num(ms) /\ Num(ms) <= Den(ms)
Pencil == (Num(ms) = 0) = OneLine
Backwards == [i \in DOMAIN ms |-> ms[Len(ms) + 1 - i]]
Symmetric == /\ Same(ms, Backwards) /\ (Len(ms) <= 2 => Same(ms, ms \o ms))
             /\ Same(ms, Append(ms, <<0, 0, 0>>))
             /\ Same(ms, [i \in DOMAIN ms |-> <<-ms[i][3], ms[i][1], -ms[i][2]>>])
(* Three times a rotation; lengths of the turned momenta are three times. *)
Turn(v) == <<v[1] + 2 * v[2] + 2 * v[3], 2 * v[1] + v[2] - 2 * v[3], 2 * v[1] - 2 * v[2] + v[3]>>
TurnedPair(a, b) == LET w == NormOf(a) * NormOf(b)
                        d == DotI(Turn(a), Turn(b))
                    IN  IF w = 0 THEN 0 ELSE 36 * 81 * w - (d * d * 36) \div w
Rotated == \A i, j \in DOMAIN ms: TurnedPair(ms[i], ms[j]) = 81 * Pair(ms[i], ms[j])
ThrustAt(n) == SumTo(LAMBDA i: LET d == DotI(ms[i], n) IN IF d < 0 THEN -d ELSE d, Len(ms))
ThrustBound == \A n \in Vectors \ {<<0, 0, 0>>}:
    /\ ThrustAt(n) <= NormOf(n) * Norms(ms)
    /\ (ThrustAt(n) = NormOf(n) * Norms(ms)) = (\A i \in DOMAIN ms: Parallel(ms[i], n))
=============================================================================
