----------------------------- MODULE MC_Queries -----------------------------
(* Design model of C06: laws of the selections over all small code, target *)
(* and status sequences, and coherence of the reference table.             *)
EXTENDS Queries
CONSTANTS Codes, Statuses, MaxLen
VARIABLES codes, targets, st
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == /\ codes \in Seqs(Codes, MaxLen)
        /\ targets \in Seqs(Codes, 2)
        /\ st \in Seqs(Statuses, 1)
Next == FALSE /\ UNCHANGED <<codes, targets, st>>
Spec == Init /\ [][Next]_<<codes, targets, st>>

Complement == \A s \in BOOLEAN : \A i \in Idx(codes) :
    CodeMask(codes, targets, TRUE, s)[i] # CodeMask(codes, targets, FALSE, s)[i]
SignWeaker == \A i \in Idx(codes) :
    CodeMask(codes, targets, FALSE, TRUE)[i] => CodeMask(codes, targets, FALSE, FALSE)[i]
SignSymmetric == \A i \in Idx(codes) :
    CodeMask(codes, targets, FALSE, FALSE) =
    CodeMask([codes EXCEPT ![i] = -codes[i]], targets, FALSE, FALSE)
OrderFree == CodeMask(codes, targets, FALSE, TRUE) = CodeMask(codes, Reverse(targets), FALSE, TRUE)
EmptyTarget == targets = <<>> => CodeMask(codes, targets, TRUE, FALSE) = [i \in Idx(codes) |-> TRUE]
HardParts == \A i \in Idx(st) :
    /\ HardAny(st)[i] = (\E k \in 1..4 : HardMasks(st)[k][i])
    /\ Cardinality({k \in 1..4 : HardMasks(st)[k][i]}) <= 1
    /\ HardAny(st)[i] = StatusMask(st, 21, <<24>>, FALSE)[i]
InclusiveBounds == \A i \in Idx(st) : StatusMask(st, Abs(st[i]), <<Abs(st[i])>>, FALSE)[i]

ASSUME TableCoherent ==
    /\ Cardinality(PdgCodes) = Len(PdgRows)
    /\ \A c \in PdgCodes \cap ((1..6) \cup (11..25)) : -c \in PdgCodes => PdgOf[-c].charge = -PdgOf[c].charge
Emit == Len(codes) <= 3 => PrintT("CASE " \o ToJson([codes |-> codes, targets |-> targets, st |-> st]))
Labels == {-2, 1, 2, 21}
Stats == {-24, -21, 0, 20, 22, 25}
=============================================================================
