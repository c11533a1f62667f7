----------------------------- MODULE MC_Rotation -----------------------------
(* Every chain of rational rotations of a vector and its companion, about  *)
(* axes with whole components: lengths, angles between vectors and         *)
(* handedness are kept, the axis stays, rotations about one axis add their *)
(* angles and the opposite angle undoes. Chains are replayed in the code.  *)
EXTENDS Rotation, Json
CONSTANTS Depth, Emit
VARIABLES p, q, size, ops

Vec(x, y, z) == <<B(x), B(y), B(z)>>
Axes == {[n |-> Vec(0, 0, 1), unit |-> B(1), name |-> <<0, 0, 1, 1>>], [n |-> Vec(1, 2, 2), unit |-> B(3), name |-> <<1, 2, 2, 3>>],
         [n |-> Vec(2, -3, 6), unit |-> B(7), name |-> <<2, -3, 6, 7>>], [n |-> Vec(-3, 0, 4), unit |-> B(5), name |-> <<-3, 0, 4, 5>>],
         [n |-> Vec(0, -1, 0), unit |-> B(1), name |-> <<0, -1, 0, 1>>]}
Turns == {<<3, 4, 5>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<5, -12, 13>>, <<-8, -15, 17>>}
Starts == {<<Vec(1, 2, 3), Vec(-2, 0, 5)>>, <<Vec(4, -4, 2), Vec(0, 0, 1)>>}
RotBy(v, a, t) == Rotate(v, a.n, a.unit, B(t[1]), B(t[2]), B(t[3]))
Scaled(a, t) == Mul(Sq(a.unit), B(t[3]))
Init == /\ \E s \in Starts: p = s[1] /\ q = s[2]
        /\ size = One /\ ops = <<>>
Do(a, t) == /\ Len(ops) < Depth
            /\ p' = RotBy(p, a, t) /\ q' = RotBy(q, a, t) /\ size' = Mul(size, Scaled(a, t))
            /\ ops' = Append(ops, [axis |-> a.name, turn |-> t])
            /\ Emit => PrintT("CASE " \o ToJson([ops |-> ops']))
Next == \E a \in Axes, t \in Turns: Do(a, t)
Spec == Init /\ [][Next]_<<p, q, size, ops>>

Rigid == ops = <<>> \/ \E s \in Starts:
    /\ Dot(p, p) = Mul(Sq(size), Dot(s[1], s[1]))
    /\ Dot(q, q) = Mul(Sq(size), Dot(s[2], s[2]))
    /\ Dot(p, q) = Mul(Sq(size), Dot(s[1], s[2]))
Local == \A a \in Axes, t \in Turns:
    LET u == Scaled(a, t) IN
    /\ RotBy(a.n, a, t) = Scale(a.n, u)                                    \* fixes the axis
    /\ Scale(RotBy(Cross(p, q), a, t), u) = Cross(RotBy(p, a, t), RotBy(q, a, t))     \* proper
    /\ LET w == Cross(a.n, p) IN                                           \* right-handed in the plane
         Dot(a.n, Cross(w, RotBy(w, a, t))) = Mul(Mul(Dot(w, w), Mul(a.unit, Sq(a.unit))), B(t[2]))
    /\ RotBy(RotBy(p, a, t), a, <<t[1], -t[2], t[3]>>) = Scale(p, Sq(u))   \* undone
    /\ \A t2 \in Turns: RotBy(RotBy(p, a, t), a, t2) =
          Scale(RotBy(p, a, <<t[1] * t2[1] - t[2] * t2[2], t[2] * t2[1] + t[1] * t2[2], t[3] * t2[3]>>), Sq(a.unit))
=============================================================================
