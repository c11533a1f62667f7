------------------------------- MODULE Singlets -----------------------------
(* C16: recorded colour singlet groupings.                                 *)
EXTENDS ColorLines
Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k = "singlets" ->
            IF ~e.r.ok THEN {"refused"}
            ELSE IF ~e.invert
            THEN Failing({<<"groupings", e.r.v = Singlets(e.ps)>>})
            ELSE Failing({
               <<"outcasts", {e.r.v[i] : i \in Idx(e.r.v)} = {<<n>> : n \in Outcasts(e.ps)}>>,
               <<"outcasts-repeated", Len(e.r.v) = Cardinality(Outcasts(e.ps))>>})
       [] OTHER -> {}) \cup
    (IF e.k = "singlets" THEN Failing({<<"input-changed", e.same>>}) ELSE {})
=============================================================================
