------------------------------ MODULE MC_Arith ------------------------------
(* Design model of C24: the algebra the specification of column arithmetic *)
(* must have, over all small columns, and the cases replayed in the code.  *)
EXTENDS ColumnArith, Json
CONSTANTS MaxRows, Kinds0
VARIABLES kind, rows, other
Vals(k) == IF k = "mask" THEN 0..1 ELSE {-1, 2}
RowsOf(k, n) == [1..n -> [1..Width(k) -> Vals(k)]]
Init == /\ kind \in Kinds0
        /\ \E n \in 1..MaxRows : rows \in RowsOf(kind, n) /\ other \in RowsOf(kind, n)
Next == FALSE /\ UNCHANGED <<kind, rows, other>>
Spec == Init /\ [][Next]_<<kind, rows, other>>

Ev(op, side, a, b) ==
    [kind |-> kind, op |-> op, side |-> side, rows |-> a,
     other |-> [form |-> "rows", rows |-> b, bool |-> kind = "mask", float |-> FALSE]]
Commutes ==
    \A op \in {"add", "multiply", "maximum", "minimum"} :
        BinWant(Ev(op, "left", rows, other)) = BinWant(Ev(op, "right", rows, other)) /\
        BinWant(Ev(op, "left", rows, other)) = BinWant(Ev(op, "left", other, rows))
Mirrors ==
    kind = "mask" \/
    /\ CmpWant(Ev("less", "left", rows, other)) = CmpWant(Ev("greater", "right", rows, other))
    /\ \A i \in Idx(rows) : \A j \in Idx(rows[i]) :
         BinWant(Ev("subtract", "left", rows, other)).v[i][j] =
         -BinWant(Ev("subtract", "right", rows, other)).v[i][j]
TypesKept == \A op \in {"add", "maximum"} :
    BinWant(Ev(op, "left", rows, other)).type = IF kind = "mask" THEN "mask" ELSE "column"
LastIsTotal ==
    \A op \in {"add", "maximum", "minimum"} :
      LET acc == AccWant([kind |-> kind, op |-> op, rows |-> rows]).v
          red == RedWant([kind |-> kind, op |-> op, rows |-> rows, axis |-> "down"])
      IN  acc[Len(acc)] = red.v[1]
TotalBothWays ==
    LET total(ax) == RedWant([kind |-> kind, op |-> "add", rows |-> rows, axis |-> ax]).v
    IN  SumSeq(Flat(total("along"))) = SumSeq(Flat(total("down"))) /\
        SumSeq(Flat(total("down"))) = total("none")[1][1]
EqualLaws ==
    LET ev(a, b) == [kind |-> kind, rows |-> a, other |-> [form |-> "rows", rows |-> b]]
    IN  \A i \in Idx(rows) :
          /\ EqRow(ev(rows, rows), i)
          /\ EqRow(ev(rows, other), i) = EqRow(ev(other, rows), i)
          /\ EqRow(ev(rows, other), i) = (rows[i] = other[i])
Emit == PrintT("CASE " \o ToJson([kind |-> kind, rows |-> rows, other |-> other]))
=============================================================================
