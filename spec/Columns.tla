------------------------------- MODULE Columns ------------------------------
(* C04: columns hold exactly the values they were built from.              *)
EXTENDS ColumnModel

(* What each way of reading a column must return, given its rows.          *)
ReadWant(kind, rows, rd) ==
    CASE rd.how \in {"iter", "array", "serialize", "rebuild", "copy", "reversed", "data"} -> rows
      [] rd.how = "index" -> <<rows[rd.i]>>
      [] rd.how = "component" -> [i \in Idx(rows) |-> <<rows[i][rd.i]>>]
      [] rd.how = "length" -> <<<<ToString(Len(rows))>>>>
      [] rd.how = "empty" -> <<<<IF rows = <<>> THEN "True" ELSE "False">>>>
      [] OTHER -> <<>>
ReadBad(kind, rows, rd) ==
    Failing({<<rd.how \o "-refused", rd.r.ok>>,
             <<rd.how, ~rd.r.ok \/ rd.r.v = ReadWant(kind, rows, rd)>>})

BuildBad(e) ==
    LET want == Interpret(e.kind, e.inp) IN
    Failing({<<"accepted", e.ok = want.ok>>,
             <<"refused-with-value-error", e.ok \/ e.exc = "ValueError">>,
             <<"input-changed", e.same>>}) \cup
    (IF ~(e.ok /\ want.ok) THEN {}
     ELSE UNION {ReadBad(e.kind, want.rows, e.reads[i]) : i \in Idx(e.reads)})

(* Two forms of the same rows build equal columns.                         *)
Bad(e) == AlwaysBad(e) \cup (IF e.k = "build" THEN BuildBad(e) ELSE {})
=============================================================================
