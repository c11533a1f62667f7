----------------------------- MODULE MC_Columns -----------------------------
(* Design model of C04: every accepted sequence of field names, for every  *)
(* kind of column, encodes rows without loss; and every flat or nested     *)
(* input of the scope is either the rows themselves or refused.            *)
EXTENDS ColumnModel, Json
CONSTANT MaxRows
VARIABLE inp, kind, rows

RowsOf(k) == UNION {[1..n -> [1..Width(k) -> 1..1]] : n \in 0..MaxRows}
Distinct(k, n) == [i \in 1..n |-> [j \in 1..Width(k) |-> 10 * i + j]]
Shaped(n, w) == [i \in 1..n |-> [j \in 1..w |-> 10 * i + j]]
Multi == {"pmu", "color", "edges"}

Init ==
    \/ \E k \in Multi, n \in 0..MaxRows : \E f \in FieldNames(k) :
         /\ kind = k /\ rows = Distinct(k, n)
         /\ inp = Encode(k, f, rows)
    \/ \E k \in Kinds, n \in 1..MaxRows, w \in 1..5 :
         /\ kind = k /\ rows = Shaped(n, w)
         /\ inp = [form |-> "rows", rows |-> rows]
    \/ \E k \in Kinds, n \in 0..5 :
         /\ kind = k /\ rows = <<>>
         /\ inp = [form |-> "flat", cells |-> [i \in 1..n |-> i]]
Next == FALSE /\ UNCHANGED <<inp, kind, rows>>
Spec == Init /\ [][Next]_<<inp, kind, rows>>

Lossless == inp.form = "record" => Interpret(kind, inp) = Accepted(rows)
WidthKept ==
    LET r == Interpret(kind, inp) IN
    r.ok => \A i \in Idx(r.rows) : Len(r.rows[i]) = Width(kind)
NothingInvented ==
    LET r == Interpret(kind, inp)
        cells == IF inp.form = "flat" THEN inp.cells
                 ELSE FoldLeft(LAMBDA a, b: a \o b, <<>>, inp.rows)
        got == FoldLeft(LAMBDA a, b: a \o b, <<>>, r.rows)
    IN  r.ok => Len(got) = Len(cells) /\ Range0(got) = Range0(cells)
WrongWidthRefused ==
    inp.form = "rows" => (Interpret(kind, inp).ok = (Len(rows[1]) = Width(kind)))
Emit == PrintT("CASE " \o ToJson([kind |-> kind, inp |-> inp]))
=============================================================================
