------------------------------- MODULE Lineage ------------------------------
(* C11: descendant masks are reachability.                                 *)
EXTENDS Topology
Check(name, r, want) ==
    Failing({<<name \o "-refused", r.ok>>, <<name, ~r.ok \/ r.v = want>>})
Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k = "vertex" -> Check("vertex-descendants", e.r,
                                  MaskOf(Descendants(e.E, e.v), Len(e.E)))
       [] e.k = "edge" -> Check("edge-descendants", e.r,
                                MaskOf(EdgeDescendants(e.E, e.edge), Len(e.E)))
       [] OTHER -> {}) \cup
    (IF e.k \in {"vertex", "edge"} THEN Failing({<<"adjacency-changed", e.same>>}) ELSE {})
=============================================================================
