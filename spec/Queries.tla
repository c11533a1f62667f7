------------------------------- MODULE Queries ------------------------------
(* C06: particle queries select exactly the matching particles.            *)
EXTENDS Particles

Is(name, r, want) ==
    Failing({<<name \o "-refused", r.ok>>, <<name, ~r.ok \/ r.v = want>>})

Matches(code, targets, signed) ==
    \E i \in Idx(targets) : IF signed THEN targets[i] = code ELSE Abs(targets[i]) = Abs(code)
CodeMask(codes, targets, exclude, signed) ==
    TLCEval([i \in Idx(codes) |-> Matches(codes[i], targets, signed) # exclude])
InRange(s, lo, hi, signed) ==
    LET x == IF signed THEN s ELSE Abs(s) IN lo <= x /\ (hi = <<>> \/ x <= hi[1])
StatusMask(st, lo, hi, signed) == TLCEval([i \in Idx(st) |-> InRange(st[i], lo, hi, signed)])

HardNames == <<"incoming", "intermediate", "outgoing", "outgoing_nonperturbative_diffraction">>
HardMasks(st) == [k \in 1..4 |-> [i \in Idx(st) |-> Abs(st[i]) = 20 + k]]
HardAny(st) == [i \in Idx(st) |-> Abs(st[i]) \in 21..24]

(* Quantities are <<significand of nine digits, exponent>>.                *)
SameQuantity(a, b) == a[2] = b[2] /\ Abs(a[1] - b[1]) <= 1
TextOf(s) == IF s = "" THEN "nan" ELSE s
Texts == {"name", "quarks", "latex"}
Charges == {"charge", "isospin", "g_parity", "space_parity", "charge_parity"}
Twelfths(row, prop) ==
    CASE prop = "charge" -> row.charge [] prop = "isospin" -> row.i
      [] prop = "g_parity" -> row.g [] prop = "space_parity" -> row.p
      [] prop = "charge_parity" -> row.c
Quantity(row, prop) ==
    CASE prop = "mass" -> <<row.mass>>
      [] prop = "width" -> <<row.width>>
      [] prop = "mass_bounds" -> <<row.masslower, row.massupper>>
      [] prop = "width_bounds" -> <<row.widthlower, row.widthupper>>
PropOk(prop, code, v) ==
    LET row == PdgOf[code] IN
    IF prop \in Texts THEN v = TextOf(CASE prop = "name" -> row.name
                                        [] prop = "quarks" -> row.quarks
                                        [] prop = "latex" -> row.latex)
    ELSE IF prop \in Charges THEN v = Twelfths(row, prop)
    ELSE Len(v) = Len(Quantity(row, prop)) /\
         \A j \in Idx(v) : SameQuantity(v[j], Quantity(row, prop)[j])
PropBad(e) ==
    IF ~e.r.ok THEN {e.prop \o "-refused"}
    ELSE IF Len(e.r.v) # Len(e.codes) THEN {e.prop \o "-length"}
    ELSE IF \A i \in Idx(e.codes) : PropOk(e.prop, e.codes[i], e.r.v[i]) THEN {}
    ELSE {e.prop}

Known(nm) == \E i \in Idx(PdgRows) : PdgRows[i].name = nm
CodesNamed(nm) == {PdgRows[i].code : i \in {j \in Idx(PdgRows) : PdgRows[j].name = nm}}
NameBad(e) ==
    LET ok == e.proper /\ \A i \in Idx(e.names) : Known(e.names[i]) IN
    IF ~ok THEN Failing({<<"unknown-name-answered", ~e.r.ok /\ e.r.exc = "ValueError">>})
    ELSE IF ~e.r.ok THEN {"from-name-refused"}
    ELSE Failing({<<"from-name", Len(e.r.v) = Len(e.names) /\
                     \A i \in Idx(e.names) : e.r.v[i] \in CodesNamed(e.names[i])>>})

Bad(e) ==
    AlwaysBad(e) \cup
    (IF "same" \in DOMAIN e /\ ~e.same THEN {"operand-changed"} ELSE {}) \cup
    (CASE e.k = "mask" -> Is("code-mask", e.r, CodeMask(e.codes, e.targets, e.exclude, e.signed))
       [] e.k = "status" -> Is("status-mask", e.r, StatusMask(e.st, e.lo, e.hi, e.signed))
       [] e.k = "hard" -> Is("hard-names", e.names, HardNames) \cup
                          Is("hard-masks", e.masks, HardMasks(e.st)) \cup
                          Is("hard-any", e.any, HardAny(e.st))
       [] e.k = "prop" -> PropBad(e)
       [] e.k = "name" -> NameBad(e)
       [] OTHER -> {})
=============================================================================
