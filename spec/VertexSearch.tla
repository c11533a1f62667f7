---------------------------- MODULE VertexSearch ----------------------------
(* C15: vertex searches find exactly the matching vertices.                *)
EXTENDS Topology
Exactly(name, r, S) ==
    Failing({<<name \o "-refused", r.ok>>,
             <<name, ~r.ok \/ Range0(r.v) = S>>,
             <<name \o "-repeated", ~r.ok \/ Len(r.v) = Cardinality(Range0(r.v))>>})
Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k = "find" ->
            IF ~e.hasin /\ ~e.hasout
            THEN Failing({<<"find-nothing-accepted", ~e.r.ok /\ e.r.exc = "ValueError">>})
            ELSE Exactly("find-vertex", e.r,
                    Matching(e.E, e.pdg, Range0(e.in), Range0(e.out)))
       [] e.k = "hadron" -> Exactly("hadron-vertices", e.r, HadronVertices(e.E, e.status))
       [] OTHER -> {})
=============================================================================
