------------------------------ MODULE Aggregates ----------------------------
(* C22: sums over groups of particles. Momenta are whole numbers of a unit *)
(* (Momentum.tla), so that sums are exact. Coordinates in the plane are    *)
(* [c, v] in units of 10^-8.                                               *)
EXTENDS Momentum, Common

Turn1 == B(628318531)
Half1 == B(314159265)
RECURSIVE Wrapped(_)
Wrapped(d) == IF Lt(Half1, d) THEN Wrapped(AbsB(Sub(Turn1, d))) ELSE d

Selected(ms, mask) == [j \in 1..Cardinality(TrueSet(mask)) |-> ms[Ascending(TrueSet(mask))[j]]]
ExactRow(r, m) == r.x = m.x /\ r.y = m.y /\ r.z = m.z /\ r.e = m.e

AggregateBad(e) ==
    IF ~e.r.ok THEN {"aggregate-error"}
    ELSE IF Len(e.r.v) # Len(e.masks) THEN {"aggregate-count"}
    ELSE IF \A i \in DOMAIN e.masks: ExactRow(e.r.v[i], SumM(Selected(e.ms, e.masks[i]))) THEN {}
    ELSE {"aggregate-value"}

WithWitness(m, w) == [x |-> m.x, y |-> m.y, z |-> m.z, e |-> m.e, rt |-> w]
ResultantBad(e) ==
    LET total == TLCEval(WithWitness(SumM(e.ms), e.rt)) IN
    IF ~WitnessOk(total) THEN {"witness"}
    ELSE IF ~e.r.ok THEN {"resultant-error"}
    ELSE (IF IF e.pseudo THEN EtaIs(e.r.v.rap, total) ELSE RapidityIs(e.r.v.rap, total, e.s2) THEN {} ELSE {"resultant-rapidity"})
         \cup (IF PhiIs(e.r.v.phi, total, e.s2) THEN {} ELSE {"resultant-azimuth"})

(* Every component of every momentum has its own whole weight.             *)
Weighed(ms, ws) == [i \in DOMAIN ms |-> [x |-> Mul(ms[i].x, ws[i].x), y |-> Mul(ms[i].y, ws[i].y),
                                         z |-> Mul(ms[i].z, ws[i].z), e |-> Mul(ms[i].e, ws[i].e)]]
MassBad(e) ==
    IF e.refuse THEN (IF e.r.ok THEN {"mass-accepted"} ELSE {})
    ELSE LET total == TLCEval(SumM(IF e.weighted THEN Weighed(e.ms, e.ws) ELSE e.ms))
             slack == MaxB(Sq(total.e), P2(total))
         IN  IF ~e.r.ok THEN {"mass-error"}
             ELSE IF e.r.v.c = "fin" /\ e.r.v.v[1] >= 0 /\
                     (SquareIs(e.r.v.v, Mul(Mass2(total), Ten12), slack) \/
                      (e.r.v.v = Zero /\ Leq(Mul(Mass2(total), Ten12), slack)))
                  THEN {} ELSE {"mass-value"}

(* sum pt c / sum pt, where pt are whole weights.                          *)
CentroidIs(v, cs, pts, turns) ==
    LET total == SumB(pts)
        want == SumB([i \in DOMAIN pts |-> Mul(pts[i], cs[i])])
        off == AbsB(Sub(Mul(v, total), want))
        tol == Mul(total, B(30))
    IN  Leq(off, tol) \/ (turns /\ NearB(off, Mul(total, Turn1), tol))
CentroidBad(e) ==
    IF ~e.r.ok THEN {"centroid-error"}
    ELSE (IF e.r.v.rap.c = "fin" /\ CentroidIs(e.r.v.rap.v, e.raps, e.pts, FALSE) THEN {} ELSE {"centroid-rapidity"})
         \cup (IF e.r.v.phi.c = "fin" /\ Leq(AbsB(e.r.v.phi.v), Add(Half1, One)) /\ CentroidIs(e.r.v.phi.v, e.phis, e.pts, TRUE)
               THEN {} ELSE {"centroid-azimuth"})

(* Strictly within the radius of the centre; nothing is asked of particles *)
(* within 10^-6 of the edge.                                               *)
Sides(p, centre, radius) ==
    IF p.eta.c # "fin" THEN {FALSE}
    ELSE LET de == Sub(p.eta.v, centre.eta)
             dp == Wrapped(AbsB(Sub(p.phi.v, centre.phi)))
             d2 == TLCEval(Add(Sq(de), Sq(dp)))
             lo == Sub(radius, B(100))
             hi == Add(radius, B(100))
         IN  (IF Leq(d2, Sq(hi)) THEN {TRUE} ELSE {}) \cup (IF lo[1] < 0 \/ Leq(Sq(lo), d2) THEN {FALSE} ELSE {})
PruneBad(e) ==
    IF ~e.r.ok THEN {"prune-error"}
    ELSE IF Len(e.r.v) # Len(e.points) THEN {"prune-length"}
    ELSE IF \A i \in DOMAIN e.points:
              IF e.mask[i] THEN e.r.v[i] \in Sides(e.points[i], e.centre, e.radius) ELSE ~e.r.v[i]
         THEN {} ELSE {"prune-value"}
(* Without a centre the resultant is taken, as validated in the event.     *)
OwnCentreBad(e) ==
    LET total == TLCEval(WithWitness(SumM(Selected(e.ms, e.mask)), e.rt)) IN
    IF ~WitnessOk(total) THEN {"witness"}
    ELSE (IF EtaIs(e.ref.rap, total) /\ PhiIs(e.ref.phi, total, e.s2) THEN {} ELSE {"prune-reference"})
         \cup PruneBad(e)

Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k = "aggregate" -> AggregateBad(e)
       [] e.k = "resultant" -> ResultantBad(e)
       [] e.k = "mass" -> MassBad(e)
       [] e.k = "centroid" -> CentroidBad(e)
       [] e.k = "prune" -> PruneBad(e)
       [] e.k = "own" -> OwnCentreBad(e)
       [] OTHER -> {})
    \cup (IF "same" \in DOMAIN e /\ ~e.same THEN {"input-changed"} ELSE {})
=============================================================================
