----------------------------- MODULE ColumnModel ----------------------------
(* A column of particle data: a sequence of rows, each with a fixed number *)
(* of components.  Cells are opaque tokens here; conversions of the        *)
(* accepted forms of input to rows are defined once, for C04.              *)
EXTENDS Common

Kinds == {"pdg", "pmu", "color", "helicity", "status", "mask", "edges"}
Width(kind) == CASE kind = "pmu" -> 4 [] kind \in {"color", "edges"} -> 2 [] OTHER -> 1

(* Component names in storage order, and what record fields may be called. *)
Components(kind) ==
    CASE kind = "pmu" -> <<"x", "y", "z", "e">>
      [] kind = "color" -> <<"color", "anticolor">>
      [] kind = "edges" -> <<"src", "dst">>
      [] OTHER -> <<"value">>
Aliases(kind, comp) ==
    CASE comp = "x" -> {"x", "px"}
      [] comp = "y" -> {"y", "py"}
      [] comp = "z" -> {"z", "pz"}
      [] comp = "e" -> {"e", "pe", "E"}
      [] comp = "src" -> {"src", "in"}
      [] comp = "dst" -> {"dst", "out"}
      [] comp = "color" -> {"color"}
      [] comp = "anticolor" -> {"anticolor"}
      [] OTHER -> {}
(* Position among the record fields of the j-th component.                 *)
FieldOf(kind, names, j) ==
    IF Width(kind) = 1 THEN 1
    ELSE CHOOSE k \in Idx(names) : names[k] \in Aliases(kind, Components(kind)[j])

Refused == [ok |-> FALSE, rows |-> <<>>]
Accepted(rows) == [ok |-> TRUE, rows |-> rows]

(* inp.form: "flat" (cells), "rows" (rows of cells) or "record" (rows and  *)
(* field names in the order of the cells).                                 *)
Interpret(kind, inp) ==
    LET w == Width(kind) IN
    CASE inp.form = "flat" ->
           IF w = 1 THEN Accepted([i \in Idx(inp.cells) |-> <<inp.cells[i]>>])
           ELSE IF inp.cells = <<>> THEN Accepted(<<>>)
           ELSE IF Len(inp.cells) = w THEN Accepted(<<inp.cells>>)
           ELSE Refused
      [] inp.form = "rows" ->
           IF \A i \in Idx(inp.rows) : Len(inp.rows[i]) = w THEN Accepted(inp.rows)
           ELSE Refused
      [] inp.form = "record" ->
           IF Len(inp.names) # w THEN Refused
           ELSE Accepted([i \in Idx(inp.rows) |->
                    [j \in 1..w |-> inp.rows[i][FieldOf(kind, inp.names, j)]]])

(* The record form of rows under a choice of field names.                  *)
Encode(kind, names, rows) ==
    LET comp(k) == CHOOSE j \in 1..Width(kind) :
                       names[k] \in Aliases(kind, Components(kind)[j])
    IN  [form |-> "record", names |-> names,
         rows |-> [i \in Idx(rows) |-> [k \in Idx(names) |-> rows[i][comp(k)]]]]
(* Every accepted sequence of field names.                                 *)
FieldNames(kind) ==
    LET w == Width(kind)
        All == UNION {Aliases(kind, Components(kind)[j]) : j \in 1..w}
    IN  IF w = 1 THEN {<<"value">>}
        ELSE {f \in [1..w -> All] :
                \A j \in 1..w : Cardinality({k \in 1..w :
                    f[k] \in Aliases(kind, Components(kind)[j])}) = 1}

Component(rows, j) == [i \in Idx(rows) |-> rows[i][j]]
=============================================================================
