--------------------------- MODULE HardDescendants --------------------------
(* C12: descendant masks of the hard partons.                              *)
EXTENDS HardProcess

Codes(ev, sel) == {ev.pdg[i] : i \in sel}
Match(code, want, signed) ==
    IF signed THEN code \in want ELSE \E w \in want : Abs(w) = Abs(code)
Selected(e) ==
    IF ~e.targeted THEN HardSet(e.ev)
    ELSE {i \in HardSet(e.ev) : Match(e.ev.pdg[i], Range0(e.target), e.signed)}
Missing(e) ==
    {w \in Range0(e.target) :
        ~\E i \in HardSet(e.ev) : Match(e.ev.pdg[i], {w}, e.signed)}
Refuse(e) == e.targeted /\ (Selected(e) = {} \/ (e.strict /\ Missing(e) # {}))

DescBad(e) ==
    IF Refuse(e)
    THEN Failing({<<"bad-request-answered", ~e.r.ok>>,
                  <<"bad-request-error", e.r.ok \/ e.r.exc = "ValueError">>})
    ELSE IF ~e.r.ok THEN {"request-refused"}
    ELSE LET seq == Ascending(Selected(e))
             lab == Labelled([j \in Idx(seq) |-> e.ev.pdg[seq[j]]])
             n == EvSize(e.ev)
             g == e.r.v
         IN  Failing({
               <<"names", g.names = lab>>,
               <<"aggregation", g.op = "or">>,
               <<"masks", Len(g.kids) = Len(seq) /\
                   \A j \in Idx(seq) :
                      g.kids[j].t = "m" /\ g.kids[j].b = MaskOf(Family(e.ev, seq[j]), n)>>})
Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k = "desc" -> DescBad(e) \cup Failing({<<"event-changed", e.same>>})
       [] OTHER -> {})
=============================================================================
