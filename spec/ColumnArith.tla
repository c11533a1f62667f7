----------------------------- MODULE ColumnArith ----------------------------
(* C24: arithmetic, comparison and reduction on columns act element by     *)
(* element.  Cells are integers; results are given in quarters, so that    *)
(* division by 2 and 4 is exact.  The cell NaN is equal to nothing.        *)
EXTENDS ColumnModel

NaN == 99999
Floor(a, b) == a \div b
(* Value of a op b in quarters; b > 0 for the two kinds of remainder.      *)
Apply(op, a, b) ==
    CASE op = "add" -> 4 * (a + b)
      [] op = "subtract" -> 4 * (a - b)
      [] op = "multiply" -> 4 * a * b
      [] op = "true_divide" -> Sign(b) * ((4 * a) \div Abs(b))
      [] op = "floor_divide" -> 4 * Floor(a, b)
      [] op = "remainder" -> 4 * (a % b)
      [] op = "maximum" -> 4 * (IF a >= b THEN a ELSE b)
      [] op = "minimum" -> 4 * (IF a <= b THEN a ELSE b)
(* Boolean cells are 0 and 1.                                              *)
ApplyBool(op, a, b) ==
    4 * (CASE op \in {"add", "maximum", "logical_or", "bitwise_or"} -> IF a + b > 0 THEN 1 ELSE 0
           [] op \in {"multiply", "minimum", "logical_and", "bitwise_and"} -> a * b
           [] op \in {"logical_xor", "bitwise_xor"} -> (a + b) % 2)
BoolOps == {"add", "maximum", "logical_or", "bitwise_or", "multiply", "minimum",
            "logical_and", "bitwise_and", "logical_xor", "bitwise_xor"}
Compare(op, a, b) ==
    CASE op = "less" -> a < b
      [] op = "greater" -> a > b
      [] op = "less_equal" -> a <= b
      [] op = "greater_equal" -> a >= b
Unary(op, a) ==
    CASE op = "negative" -> -4 * a
      [] op = "absolute" -> 4 * Abs(a)
      [] op = "sign" -> 4 * Sign(a)
      [] op = "square" -> 4 * a * a
      [] op = "positive" -> 4 * a
Num(b) == IF b THEN 4 ELSE 0

(* The cell of the second operand which meets the cell (i, j).             *)
CellOf(o, i, j) ==
    CASE o.form = "scalar" -> o.rows[1][1]
      [] o.form = "row" -> o.rows[1][j]
      [] o.form = "col" -> o.rows[i][1]
      [] o.form \in {"rows", "column", "list"} -> o.rows[i][j]
Grid(e, f(_, _)) ==
    [i \in Idx(e.rows) |-> [j \in Idx(e.rows[i]) |-> f(i, j)]]
Ordered(e, op(_, _), i, j) ==
    LET a == e.rows[i][j]
        b == CellOf(e.other, i, j)
    IN  IF e.side = "left" THEN op(a, b) ELSE op(b, a)
Answer(type, v) == [type |-> type, v |-> v]
IsOf(name, r, want) ==
    Failing({<<name \o "-refused", r.ok>>,
             <<name \o "-type", ~r.ok \/ r.type = want.type>>,
             <<name, ~r.ok \/ r.type # want.type \/ r.v = want.v>>})

(* Kind of result: whole numbers stay in an integer column, a mask with    *)
(* numbers does not stay a mask.                                           *)
ResultType(e) ==
    IF e.kind = "mask" THEN IF e.other.bool THEN "mask" ELSE "plain"
    ELSE IF e.kind = "pmu" THEN "column"
    ELSE IF e.op = "true_divide" \/ e.other.float THEN "plain" ELSE "column"
BinWant(e) ==
    IF e.kind = "mask" /\ e.other.bool
    THEN Answer("mask", Grid(e, LAMBDA i, j: Ordered(e, LAMBDA a, b: ApplyBool(e.op, a, b), i, j)))
    ELSE Answer(ResultType(e), Grid(e, LAMBDA i, j: Ordered(e, LAMBDA a, b: Apply(e.op, a, b), i, j)))
(* Quotient and remainder at once; half: the divisor is in halves.         *)
PairWant(e, part) ==
    LET h == IF e.half THEN 2 ELSE 1
        quo(a, b) == 4 * Floor(h * a, b)
        left(a, b) == (4 \div h) * ((h * a) % b)
        f(a, b) == IF part = "quotient" THEN quo(a, b) ELSE left(a, b)
        type == IF e.kind = "mask" \/ (e.kind # "pmu" /\ e.other.float) THEN "plain" ELSE "column"
    IN  Answer(type, Grid(e, LAMBDA i, j: Ordered(e, f, i, j)))
CmpWant(e) ==
    Answer("mask", Grid(e, LAMBDA i, j: Num(Ordered(e, LAMBDA a, b: Compare(e.op, a, b), i, j))))
UnWant(e) ==
    IF e.op \in {"logical_not", "invert"}
    THEN Answer("mask", Grid(e, LAMBDA i, j: Num(e.rows[i][j] = 0)))
    ELSE Answer("column", Grid(e, LAMBDA i, j: Unary(e.op, e.rows[i][j])))

(* Reductions: of everything, down the rows, or along each row.            *)
Fold(op, s) ==
    CASE op = "add" -> SumSeq(s)
      [] op = "maximum" -> MaxOf(Range0(s))
      [] op = "minimum" -> MinOf(Range0(s))
Flat(rows) == FoldLeft(LAMBDA a, b: a \o b, <<>>, rows)
DownCols(op, rows) == [j \in Idx(rows[1]) |-> 4 * Fold(op, Component(rows, j))]
AlongRows(op, rows) == [i \in Idx(rows) |-> <<4 * Fold(op, rows[i])>>]
RedWant(e) ==
    LET w == Width(e.kind) IN
    CASE e.axis = "none" -> Answer("scalar", <<<<4 * Fold(e.op, Flat(e.rows))>>>>)
      [] e.axis = "down" /\ w = 1 -> Answer("scalar", <<<<4 * Fold(e.op, Flat(e.rows))>>>>)
      [] e.axis = "down" /\ w > 1 -> Answer("column", <<DownCols(e.op, e.rows)>>)
      [] e.axis = "along" -> Answer("plain", AlongRows(e.op, e.rows))
(* Updates at given rows, in order, a row as often as it is given; the      *)
(* sums of the segments which start at given rows.                         *)
Update(e, row, p) ==
    [j \in Idx(row) |->
        LET v == CellOf(e.other, p, j) IN
        IF e.kind = "mask" THEN ApplyBool(e.op, row[j], v) \div 4 ELSE Apply(e.op, row[j], v) \div 4]
RECURSIVE After(_, _, _)
After(e, rows, p) ==
    IF p > Len(e.at) THEN rows
    ELSE After(e, TLCEval([rows EXCEPT ![e.at[p] + 1] = Update(e, @, p)]), p + 1)
AtWant(e) ==
    LET end == TLCEval(After(e, e.rows, 1)) IN
    Answer(IF e.kind = "mask" THEN "mask" ELSE "column",
           [i \in Idx(end) |-> [j \in Idx(end[i]) |-> 4 * end[i][j]]])
SegWant(e) ==
    LET stop(p) == IF p = Len(e.at) THEN Len(e.rows) ELSE e.at[p + 1]
        seg(p) == SubSeq(e.rows, e.at[p] + 1, stop(p))
    IN  Answer(IF e.kind = "mask" THEN IF e.op = "add" THEN "plain" ELSE "mask" ELSE "column",
               [p \in Idx(e.at) |-> DownCols(e.op, seg(p))])
Prefix(s, i) == SubSeq(s, 1, i)
AccWant(e) ==
    LET v == [i \in Idx(e.rows) |-> DownCols(e.op, Prefix(e.rows, i))] IN
    Answer(IF e.kind = "mask" THEN IF e.op = "add" THEN "plain" ELSE "mask" ELSE "column", v)

(* Equality compares whole rows; a broken operand is refused, and so is a   *)
(* record of cells (from Half on) which the columns cannot hold.           *)
Half == 79000
Holds(s) == \A j \in Idx(s) : s[j] < Half \/ s[j] = NaN
SameCell(a, b) == a = b /\ a # NaN
SameRow(r, s) == \A j \in Idx(r) : SameCell(r[j], s[j])
EqComparable(e) ==
    CASE e.other.form \in {"column", "records", "list", "rows"} -> Len(e.other.rows) = Len(e.rows)
      [] e.other.form = "record" -> Len(e.other.rows[1]) = Width(e.kind) /\ Holds(e.other.rows[1])
      [] e.other.form = "scalar" -> TRUE
      [] e.other.form = "foreign" -> FALSE
EqRow(e, i) ==
    SameRow(e.rows[i], IF e.other.form \in {"record", "scalar"} THEN e.other.rows[1] ELSE e.other.rows[i])
EqBad(e) ==
    LET fine == EqComparable(e)
        is == TLCEval([i \in Idx(e.rows) |-> EqRow(e, i)])
        eqw == Answer("mask", [i \in Idx(e.rows) |-> <<Num(is[i])>>])
        new == Answer("mask", [i \in Idx(e.rows) |-> <<Num(~is[i])>>])
    IN  IF ~fine THEN Failing({<<"equal-answered", ~e.eq.ok>>, <<"unequal-answered", ~e.ne.ok>>})
        ELSE IsOf("equal", e.eq, eqw) \cup IsOf("unequal", e.ne, new)

Bad(e) ==
    AlwaysBad(e) \cup
    (IF "same" \in DOMAIN e /\ ~e.same THEN {"operand-changed"} ELSE {}) \cup
    (CASE e.k = "bin" -> IsOf("binary", e.r, BinWant(e))
       [] e.k = "inplace" -> IsOf("in-place", e.r, BinWant(e)) \cup
                             Failing({<<"in-place-identity", e.self>>})
       [] e.k = "cmp" -> IsOf("compare", e.r, CmpWant(e))
       [] e.k = "un" -> IsOf("unary", e.r, UnWant(e))
       [] e.k = "red" -> IsOf("reduce", e.r, RedWant(e))
       [] e.k = "pair" -> IsOf("quotient", e.quo, PairWant(e, "quotient")) \cup
                          IsOf("remainder", e.rem, PairWant(e, "remainder"))
       [] e.k = "at" -> IsOf("update", e.r, AtWant(e))
       [] e.k = "seg" -> IsOf("segments", e.r, SegWant(e))
       [] e.k = "acc" -> IsOf("accumulate", e.r, AccWant(e))
       [] e.k = "eq" -> EqBad(e)
       [] e.k = "refuse" -> Failing({<<"unsupported-answered", ~e.r.ok>>})
       [] OTHER -> {})
=============================================================================
