------------------------------- MODULE MC_Boost -----------------------------
(* Every sequence of lattice shifts of two particles, up to Depth: masses  *)
(* and transverse momenta stay, shifts of one kind add up whatever came    *)
(* between, the kinds commute, and opposite shifts undo each other. Every  *)
(* sequence is replayed in the real code.                                  *)
EXTENDS Boosts, Json
CONSTANTS Depth, Emit
VARIABLES start, now, ops

V(x, y, p, q) == [x |-> x, y |-> y, p |-> p, q |-> q]
Starts == {<<V(3, 4, 32, 8), V(0, -1, 8, 8)>>, <<V(-5, 12, 16, 64), V(0, 0, 32, 0)>>}
Moves == {[kind |-> "phi", n |-> <<1, 1>>], [kind |-> "phi", n |-> <<-1, 2>>],
          [kind |-> "rap", n |-> <<1, 1>>], [kind |-> "rap", n |-> <<-1, -1>>],
          [kind |-> "rap", n |-> <<0, 1>>], [kind |-> "rap", n |-> <<-2, 1>>]}
Init == start \in Starts /\ now = start /\ ops = <<>>
Next == \E m \in Moves:
    /\ Len(ops) < Depth
    /\ \A i \in 1..2: m.kind = "rap" => CanBoost(now[i], m.n[i])
    /\ now' = Apply(now, m.kind, m.n) /\ ops' = Append(ops, m) /\ UNCHANGED start
    /\ (Emit /\ Len(ops') = Depth) => PrintT("CASE " \o ToJson([start |-> start, ops |-> ops']))
Spec == Init /\ [][Next]_<<start, now, ops>>

RECURSIVE TotalOf(_, _, _)
TotalOf(s, kind, i) == IF s = <<>> THEN 0
                       ELSE (IF s[1].kind = kind THEN s[1].n[i] ELSE 0) + TotalOf(Tail(s), kind, i)
Conserved == \A i \in 1..2: PtSq(now[i]) = PtSq(start[i]) /\ MassSq(now[i]) = MassSq(start[i])
Additive == \A i \in 1..2:
    LET a == TotalOf(ops, "phi", i)
        b == TotalOf(ops, "rap", i)
    IN  CanBoost(start[i], b) => now[i] = BoostBy(TurnBy(start[i], a), b)
Undone == \A m \in Moves:
    (\A i \in 1..2: m.kind = "rap" => CanBoost(now[i], m.n[i])) =>
        Apply(Apply(now, m.kind, m.n), m.kind, [i \in 1..2 |-> -m.n[i]]) = now
PathMatches == Len(ops) > 0 => Run(start, ops)[Len(ops)] = now
=============================================================================
