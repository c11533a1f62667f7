------------------------------- MODULE Records ------------------------------
(* C23: ingestion, serialisation and display of events.                    *)
EXTENDS CompositeModel, Particles

LheStatus(s) ==
    CASE s = -1 -> -21 [] s = 1 -> -23 [] s = -2 -> -22 [] s = 2 -> -22
      [] s = 3 -> -22 [] s = -9 -> -12 [] OTHER -> s

ColsBad(name, o, want) ==
    IF ~o.ok THEN {name \o "-refused"} ELSE {name \o "-" \o f : f \in Wrong(o.cols, want)}
IngestBad(e) ==
    ColsBad("read", e.got, e.cols) \cup Failing({<<"source-changed", e.same>>})
LheBad(e) ==
    LET n == Length(e.cols)
        st == [i \in Idx(e.stat) |-> <<ToString(LheStatus(e.stat[i]))>>]
        want == [e.cols EXCEPT !.status = st,
                               !.final = [i \in 1..n |-> <<"False">>]]
    IN  ColsBad("lhe", e.got, want) \cup Failing({<<"source-changed", e.same>>})
(* Serialised columns keep their names; weights are not serialised.        *)
SerialBad(e) ==
    (IF ~e.ser.ok THEN {"serialize-refused"}
     ELSE {"serialize-" \o f : f \in Wrong(e.ser.cols, e.cols)} \cup
          Failing({<<"serialize-names", e.names = e.want_names>>})) \cup
    ColsBad("rebuilt", e.back, e.cols)

(* ----- tables ----- *)
Heads(f) ==
    CASE f = "pdg" -> <<"name">>
      [] f = "pmu" -> <<"px", "py", "pz", "energy">>
      [] f = "color" -> <<"color", "anticolor">>
      [] f = "edges" -> <<"src", "dst">>
      [] OTHER -> <<f>>
Shown(n) == IF n <= 60 THEN [i \in 1..n |-> i]
            ELSE [i \in 1..11 |-> IF i <= 5 THEN i ELSE IF i = 6 THEN 0 ELSE n - 11 + i]
Flatten(ss) == FoldLeft(LAMBDA a, b: a \o b, <<>>, ss)
TableFields(e) == SelectSeq(e.fields, LAMBDA f: Present(e.cols, f) /\ f # "weights")
CellsOf(e, f, i) == IF f = "pdg" THEN <<PdgName(e.codes[i])>> ELSE e.cols[f][i]
TableRow(e, fs, i) == Flatten([j \in Idx(fs) |-> CellsOf(e, fs[j], i)])
TableBad(e) ==
    LET fs == TableFields(e)
        n == Length(e.cols)
        heads == Flatten([j \in Idx(fs) |-> Heads(fs[j])])
        rows == TLCEval([r \in Idx(Shown(n)) |->
                  IF Shown(n)[r] = 0 THEN [j \in Idx(heads) |-> "..."]
                  ELSE TableRow(e, fs, Shown(n)[r])])
    IN  IF ~e.t.ok THEN {"table-refused"}
        ELSE Failing({<<"table-headers", e.t.v.heads = heads>>,
                      <<"table-row-count", Len(e.t.v.rows) = Len(rows)>>,
                      <<"table-rows", Len(e.t.v.rows) # Len(rows) \/ e.t.v.rows = rows>>,
                      <<"table-particles", e.t.v.particles = n>>,
                      <<"table-attributes", e.t.v.attributes = Len(heads)>>})
Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k = "ingest" -> IngestBad(e)
       [] e.k = "lhe" -> LheBad(e)
       [] e.k = "serial" -> SerialBad(e)
       [] e.k = "table" -> TableBad(e)
       [] OTHER -> {})
=============================================================================
