----------------------------- MODULE Particles ------------------------------
(* The reference particle table.                                           *)
EXTENDS Common, Json
PdgRows == JsonDeserialize("pdg_table.json")
PdgCodes == {PdgRows[i].code : i \in Idx(PdgRows)}
PdgOf == [c \in PdgCodes |-> PdgRows[CHOOSE i \in Idx(PdgRows) : PdgRows[i].code = c]]
PdgName(c) == PdgOf[c].name

(* Labels of a sequence of codes: names, numbered in order when repeated.  *)
Labelled(codes) ==
    LET nm == TLCEval([i \in Idx(codes) |-> PdgName(codes[i])])
        many(i) == \E j \in Idx(nm) : j # i /\ nm[j] = nm[i]
        before(i) == Cardinality({j \in 1..(i - 1) : nm[j] = nm[i]})
    IN  TLCEval([i \in Idx(nm) |-> IF many(i) THEN nm[i] \o ":" \o ToString(before(i)) ELSE nm[i]])
=============================================================================
