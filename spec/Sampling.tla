------------------------------ MODULE Sampling ------------------------------
(* C25: momenta drawn at random: physical, massless as often as asked, and *)
(* uniform in energy and over the sphere.                                  *)
(*                                                                         *)
(* Few rows are given as [x, y, z, e] in units of 10^-12 of the maximum    *)
(* energy (Big), many as <<x, y, z, e>> in units of 10^-4 of it, with a    *)
(* flag which tells whether the invariant mass vanishes.                   *)
EXTENDS Big, Common

(* --- one momentum ---                                                    *)
Unit12 == Ten(12)
P2(r) == Add(Add(Sq(r.x), Sq(r.y)), Sq(r.z))
EnergyOk(r) == r.e[1] >= 0 /\ Leq(r.e, Add(Unit12, B(1)))
Slack(r) == Add(Mul(B(40), Add(r.e, B(10))), Zero)       \* rounding of the components
Physical(r) == Leq(P2(r), Add(Sq(r.e), Slack(r)))
Massless(r) == NearB(P2(r), Sq(r.e), Slack(r))

(* --- frequencies ---                                                     *)
(* k of n events of probability a / d: by Bernstein's inequality a fair    *)
(* draw is outside these limits with a probability below 2 exp(-35).       *)
L == 35
Plausible(k, n, a, d) ==
    LET dev == AbsB(Sub(Mul(B(k), B(d)), Mul(B(n), B(a))))
        free == Mul(B(24), B(d))
        over == Sub(dev, free)
    IN  Leq(dev, free) \/ Leq(Sq(over), Mul(Mul(B(2 * L), B(n)), Mul(B(a), B(d - a))))

(* --- directions ---                                                      *)
(* Eight bands of equal area, and eight octants of azimuth.                *)
Norm2(r) == r[1] * r[1] + r[2] * r[2] + r[3] * r[3]
Band(r) ==
    LET q == 16 * r[3] * r[3]
        p == Norm2(r)
        step == IF q < p THEN 1 ELSE IF q < 4 * p THEN 2 ELSE IF q < 9 * p THEN 3 ELSE 4
    IN  IF r[3] >= 0 THEN 4 + step ELSE 5 - step
Octant(r) ==
    1 + (IF r[1] >= 0 THEN 0 ELSE 1) + (IF r[2] >= 0 THEN 0 ELSE 2) + (IF Abs(r[1]) >= Abs(r[2]) THEN 0 ELSE 4)
Long(r) == Norm2(r) >= 40000           \* two hundredths of the maximum energy
Slice(r) == IF r[4] >= 10000 THEN 8 ELSE 1 + (8 * r[4]) \div 10000
(* How many rows fall in each of m classes.                                *)
Count(rows, m, f(_)) ==
    FoldLeft(LAMBDA acc, r: [acc EXCEPT ![f(r)] = @ + 1], [i \in 1..m |-> 0], rows)
Total(c, S) == FoldSet(LAMBDA i, acc: acc + c[i], 0, S)
(* Counts over classes 1..m, merged by `part' into k equal parts.          *)
EvenParts(c, m, k, part(_)) ==
    LET all == Total(c, 1..m) IN
    \A j \in 1..k: Plausible(Total(c, {i \in 1..m: part(i) = j}), all, 1, k)
(* Long momenta by direction: 64 classes for each of the four kinds        *)
(* massive or massless, of low or high energy.                             *)
Kind(r) == r[5] + 2 * (IF r[4] >= 5000 THEN 1 ELSE 0)
Cell(r) == 64 * Kind(r) + 8 * (Band(r) - 1) + Octant(r)
Kinds == [all |-> 0..3, massive |-> {0, 2}, massless |-> {1, 3}, low |-> {0, 1}, high |-> {2, 3}]
DirectionsBad(cells, what) ==
    LET c == TLCEval([i \in 1..64 |-> Total(cells, {64 * k + i: k \in Kinds[what]})]) IN
    Failing({<<what \o "-polar", EvenParts(c, 64, 8, LAMBDA i: 1 + ((i - 1) \div 8))>>,
             <<what \o "-azimuth", EvenParts(c, 64, 8, LAMBDA i: 1 + ((i - 1) % 8))>>,
             <<what \o "-directions", EvenParts(c, 64, 64, LAMBDA i: i)>>})
(* By energy: eight slices for massive and for massless momenta.           *)
Shelf(r) == 8 * r[5] + Slice(r)
(* Massless with probability q / 1000, whatever the energy.                *)
Fraction(shelves, slices, q) ==
    LET k == Total(shelves, {8 + i: i \in slices})
        n == k + Total(shelves, slices)
    IN  IF q = 0 THEN Plausible(k, n, 1, 10000) ELSE Plausible(k, n, q, 1000)

RowsBad(e) ==
    Failing({<<"energy", \A i \in DOMAIN e.rows: EnergyOk(e.rows[i])>>,
             <<"unphysical", \A i \in DOMAIN e.rows: Physical(e.rows[i])>>,
             <<"massless", LET k == Cardinality({i \in DOMAIN e.rows: Massless(e.rows[i])}) IN
                CASE e.q = 1000 -> k = Len(e.rows)
                  [] e.q = 0 -> Plausible(k, Len(e.rows), 1, 10000)
                  [] OTHER -> Plausible(k, Len(e.rows), e.q, 1000)>>})
DrawBad(e) ==
    IF e.refuse THEN (IF e.ok THEN {"accepted"} ELSE {})
    ELSE IF ~e.ok THEN {"error"}
    ELSE (IF Len(e.rows) = e.size THEN {} ELSE {"size"}) \cup RowsBad(e)
         \cup (IF e.repeated THEN {} ELSE {"seed"}) \cup (IF e.varied \/ e.size < 3 THEN {} ELSE {"constant"})
ManyBad(e) ==
    IF ~e.ok THEN {"error"}
    ELSE IF Len(e.rows) # e.size THEN {"size"}
    ELSE IF \E i \in DOMAIN e.rows: e.rows[i][4] \notin 0..10000 \/ e.rows[i][6] # 1 THEN {"range"}
    ELSE LET shelves == TLCEval(Count(e.rows, 16, Shelf))
             cells == TLCEval(Count(SelectSeq(e.rows, Long), 256, Cell))
         IN  Failing({<<"energies", EvenParts(shelves, 16, 8, LAMBDA i: 1 + ((i - 1) % 8))>>,
                      <<"fraction", Fraction(shelves, 1..8, e.q)>>,
                      <<"fraction-low", Fraction(shelves, 1..4, e.q)>>,
                      <<"fraction-high", Fraction(shelves, 5..8, e.q)>>})
             \cup UNION {DirectionsBad(cells, what): what \in DOMAIN Kinds}

Bad(e) ==
    AlwaysBad(e) \cup
    (CASE e.k = "draw" -> DrawBad(e) [] e.k = "many" -> ManyBad(e) [] OTHER -> {})
=============================================================================
