------------------------------ MODULE Kinematics ----------------------------
(* C07: quantities derived from four-momenta. An event is one object with  *)
(* known contents and a history of requests made of it, in any order, each *)
(* answered by one value per particle. Every particle is judged by its own *)
(* components alone.                                                       *)
EXTENDS Momentum, Common

Exact(v, b) == v.c = "fin" /\ v.v = b
ValueOk(q, v, m, s) ==
    CASE q = "x" -> Exact(v, m.x)
      [] q = "y" -> Exact(v, m.y)
      [] q = "z" -> Exact(v, m.z)
      [] q = "energy" -> Exact(v, m.e)
      [] q = "pt" -> PtIs(v, m)
      [] q = "phi" -> PhiIs(v, m, s)
      [] q = "theta" -> ThetaIs(v, m)
      [] q = "eta" -> EtaIs(v, m)
      [] q = "rapidity" -> RapidityIs(v, m, s)
      [] q = "mass" -> MassIs(v, m)
      [] q = "mass_t" -> MassTIs(v, m)

(* Azimuths are given with a warning when some of them are undefined.      *)
WarningOk(req, ms, s) ==
    (req.q = "phi" /\ req.first) =>
        /\ (\E i \in DOMAIN ms: SqBelow(Pt2(ms[i]), s)) => req.warned
        /\ (\A i \in DOMAIN ms: SqAbove(Pt2(ms[i]), s)) => ~req.warned

BadRequest(req, ms, s) ==
    IF ~req.r.ok THEN {req.q \o "-error"}
    ELSE IF Len(req.r.v) # Len(ms) THEN {req.q \o "-length"}
    ELSE (IF \A i \in DOMAIN ms: ValueOk(req.q, req.r.v[i], ms[i], s) THEN {} ELSE {req.q})
         \cup (IF WarningOk(req, ms, s) THEN {} ELSE {"phi-warning"})

Bad(e) ==
    AlwaysBad(e) \cup
    IF e.k # "kin" THEN {}
    ELSE (IF \A i \in DOMAIN e.ms: WitnessOk(e.ms[i]) THEN {} ELSE {"witness"})
         \cup UNION {BadRequest(e.req[j], e.ms, e.s2): j \in DOMAIN e.req}
=============================================================================
