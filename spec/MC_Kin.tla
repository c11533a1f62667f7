-------------------------------- MODULE MC_Kin ------------------------------
(* Every small momentum: the relations that define the derived quantities  *)
(* agree with each other, single out one value, and tell momenta with      *)
(* different values apart. Each momentum is replayed in the real code.     *)
EXTENDS Momentum, Json
CONSTANTS Comps, Energies, Emit
SmallComps == {-2, -1, 0, 1}
DeepComps == {-4, -3, -2, -1, 0, 1, 2, 3, 4}
VARIABLES m, pc

Mom(x, y, z, e) ==
    LET p == Mul(Add(Sq(B(x)), Sq(B(y))), Ten12) IN
    [x |-> B(x), y |-> B(y), z |-> B(z), e |-> B(e), v |-> <<x, y, z, e>>]
Init == /\ m \in {Mom(x, y, z, e): x \in Comps, y \in Comps, z \in Comps, e \in Energies}
        /\ pc = "made"
Next == /\ pc = "made" /\ pc' = "done" /\ UNCHANGED m
        /\ Emit => PrintT("CASE " \o ToJson([ms |-> <<m.v>>,
              req |-> <<"mass", "eta", "phi", "pt", "rapidity", "theta", "mass_t", "x", "energy">>]))
Spec == Init /\ [][Next]_<<m, pc>>

(* Definitions hang together.                                              *)
Decomposes == Add(Mass2(m), Sq(m.z)) = Sub(Sq(m.e), Pt2(m)) /\ MassT2(m) = Add(Mass2(m), Pt2(m))
(* A time-like momentum has smaller rapidity than pseudorapidity.          *)
RapidityBelowEta == (Mass2(m)[1] >= 0) => Leq(Pt2(m), MassT2(m))

(* Whole roots: the relation accepts the true root and no other within a   *)
(* part in a thousand.                                                     *)
Roots == {<<B(k), Ten(6)>>: k \in 0..20}
Sharp(Is(_, _), value) ==
    \A k \in 0..20: \A off \in {-1000, 0, 1000}:
        LET root == Mul(B(k), Ten(6))
            v == [c |-> "fin", v |-> Add(root, B(off))]
        IN  Is(v, m) <=> (off = 0 /\ Sq(B(k)) = value) \/ (k = 0 /\ off # 0 /\ Is(v, m) /\ value = Zero)
PtSharp == Sharp(PtIs, Pt2(m))
(* Opposite signs of roots differ.                                         *)
MassSigned == \A k \in 1..20:
    LET up == [c |-> "fin", v |-> Mul(B(k), Ten(6))]
        down == [c |-> "fin", v |-> Mul(B(-k), Ten(6))]
    IN  /\ ~(MassIs(up, m) /\ MassIs(down, m))
        /\ MassIs(up, m) <=> Mass2(m) = B(k * k)
        /\ MassIs(down, m) <=> Mass2(m) = B(-k * k)
(* Azimuth: of the twelve directions with whole tangents only the one of   *)
(* the momentum is accepted.                                               *)
Dirs == {<<1000000, 0>>, <<0, 1000000>>, <<600000, 800000>>, <<800000, 600000>>}
PhiSharp == \A d \in Dirs: \A sx \in {-1, 1}: \A sy \in {-1, 1}:
    LET v == [c |-> "fin", a |-> 0, co |-> Mul(B(sx * d[1]), Ten(6)), si |-> Mul(B(sy * d[2]), Ten(6))]
        cross == Sub(Mul(v.co, m.y), Mul(v.si, m.x))
        dot == Add(Mul(v.co, m.x), Mul(v.si, m.y))
    IN  Pt2(m) # Zero => (PhiIs(v, m, 0) <=> (cross = Zero /\ dot[1] = 1))
=============================================================================
