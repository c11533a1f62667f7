------------------------------ MODULE Distance ------------------------------
(* C09: angular distances between two sets of particles.                   *)
(*                                                                         *)
(* A particle is [eta, rap, phi], each [c, v]: its class (finite, infinite *)
(* of either sign, undefined) and its value in units of 10^-8. Measured    *)
(* distances are counts of 10^-8.                                          *)
EXTENDS Big, Common

Turn1 == B(628318531)
Half1 == B(314159265)
Fin(n) == [c |-> "fin", v |-> B(n)]
Rapidity(p, pseudo) == IF pseudo THEN p.eta ELSE p.rap

RECURSIVE Wrapped(_)
Wrapped(d) == IF Lt(Half1, d) THEN Wrapped(AbsB(Sub(Turn1, d))) ELSE d
(* Difference of rapidities: undefined ones count as zero.                 *)
DRap(a, b) ==
    IF a.c = "nan" \/ b.c = "nan" THEN Fin(0)
    ELSE IF a.c = "fin" /\ b.c = "fin" THEN [c |-> "fin", v |-> AbsB(Sub(a.v, b.v))]
    ELSE IF a.c = b.c THEN Fin(0)
    ELSE [c |-> "+inf", v |-> Zero]
(* Difference of azimuths, where both are defined.                         *)
HasDPhi(a, b) == a.phi.c = "fin" /\ b.phi.c = "fin"
DPhi(a, b) == Wrapped(AbsB(Sub(a.phi.v, b.phi.v)))

(* d is the hypotenuse of r and p, up to twenty units in each.             *)
HypotIs(d, r, p) ==
    NearB(Sq(d), Add(Sq(r), Sq(p)), Mul(B(40), Add(Add(r, p), B(20))))
DistanceIs(d, a, b, pseudo) ==
    LET r == DRap(Rapidity(a, pseudo), Rapidity(b, pseudo)) IN
    IF r.c # "fin" THEN d.c = "+inf"
    ELSE /\ d.c = "fin" /\ d.v[1] >= 0
         /\ IF HasDPhi(a, b) THEN HypotIs(d.v, r.v, DPhi(a, b))
            ELSE /\ Leq(r.v, Add(d.v, B(40)))
                 /\ Leq(Sq(d.v), Add(Add(Sq(r.v), Sq(Half1)), Mul(B(100), Add(d.v, B(20)))))

Rows(r, n, m) == Len(r) = n /\ \A i \in 1..n: Len(r[i]) = m
(* A matrix of distances from the particles a to the particles b.          *)
MatrixBad(what, o, a, b, pseudo) ==
    IF ~o.ok THEN {what \o "-error"}
    ELSE IF ~Rows(o.v, Len(a), Len(b)) THEN {what \o "-shape"}
    ELSE IF \A i \in DOMAIN a: \A j \in DOMAIN b: DistanceIs(o.v[i][j], a[i], b[j], pseudo) THEN {}
    ELSE {what \o "-value"}
(* Nothing separates a particle from itself: exactly so within one set.    *)
SelfBad(o) == IF o.ok /\ \E i \in DOMAIN o.v: o.v[i][i] # Fin(0) THEN {"self-distance"} ELSE {}
SymmetricBad(o) ==
    IF o.ok /\ \E i, j \in DOMAIN o.v: o.v[i][j] # o.v[j][i] THEN {"asymmetric"} ELSE {}

(* Distances weighted by a power of the transverse momentum of the row:    *)
(* weights in units of 10^-12. Without transverse momentum the weight is   *)
(* one for a power of zero, nothing for a positive one (vanish) and        *)
(* undefined otherwise, where nothing is asked.                            *)
WeightedIs(d, w, a, b, vanish) ==
    LET r == DRap(a.eta, b.eta) IN
    IF w = Ten(12) /\ ~HasDPhi(a, b) THEN DistanceIs(d, a, b, TRUE)
    ELSE IF a.phi.c = "none" /\ vanish THEN r.c = "fin" => d = Fin(0)
    ELSE IF w[1] <= 0 \/ ~HasDPhi(a, b) THEN TRUE
    ELSE IF r.c # "fin" THEN d.c = "+inf"
    ELSE /\ d.c = "fin" /\ d.v[1] >= 0
         /\ LET wr == Mul(w, r.v)
                wp == Mul(w, DPhi(a, b))
                u == Add(w, Ten(12))
            IN  NearB(Sq(Mul(d.v, Ten(12))), Add(Sq(wr), Sq(wp)), Mul(Mul(B(40), u), Add(Add(wr, wp), Mul(B(20), u))))
WeightedBad(o, a, b, ws, vanish) ==
    IF ~o.ok THEN {"weighted-error"}
    ELSE IF ~Rows(o.v, Len(a), Len(b)) THEN {"weighted-shape"}
    ELSE IF \A i \in DOMAIN a: \A j \in DOMAIN b: WeightedIs(o.v[i][j], ws[i], a[i], b[j], vanish) THEN {}
    ELSE {"weighted-value"}

CallBad(e, c) ==
    (CASE c.how = "two" -> MatrixBad("two", c.r, e.a, e.b, c.pseudo)
       [] c.how = "swap" -> MatrixBad("swap", c.r, e.b, e.a, c.pseudo)
       [] c.how = "self" -> MatrixBad("self", c.r, e.a, e.a, c.pseudo) \cup SelfBad(c.r) \cup SymmetricBad(c.r)
       [] c.how = "copy" -> MatrixBad("copy", c.r, e.a, e.a, c.pseudo)
       [] c.how = "window" -> MatrixBad("window", c.r, SubSeq(e.a, c.lo[1] + 1, c.lo[1] + c.size),
                                        SubSeq(e.a, c.lo[2] + 1, c.lo[2] + c.size), c.pseudo)
       [] c.how = "affinity" -> MatrixBad("affinity", c.r, e.a, e.a, TRUE)
       [] c.how = "weighted" -> WeightedBad(c.r, e.a, e.b, c.ws, c.vanish)
       [] c.how = "refused" -> IF c.r.ok THEN {"bad-call-accepted"} ELSE {}
       [] OTHER -> {})
    \cup (IF c.before = c.after THEN {} ELSE {"threads-" \o c.how})

Bad(e) ==
    AlwaysBad(e) \cup
    IF e.k # "dist" THEN {}
    ELSE UNION {CallBad(e, e.calls[i]): i \in DOMAIN e.calls}
         \cup (IF e.same THEN {} ELSE {"input-changed"})
=============================================================================
