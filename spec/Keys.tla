-------------------------------- MODULE Keys --------------------------------
(* C05, C10: what a selection key means.                                   *)
(*   [t |-> "slice", a, b, s]  each bound <<>> (absent) or <<int>>         *)
(*   [t |-> "at", v]           positions from zero, negative from the end  *)
(*   [t |-> "mask", m]         a mask value (array, mask or nested group)  *)
(* KeyRows gives the selected rows, from one, in order.                    *)
EXTENDS Masks

Bound(x, absent, n, lo, hi) ==
    IF x = <<>> THEN absent
    ELSE LET v == IF x[1] < 0 THEN x[1] + n ELSE x[1]
         IN  IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
SliceRows(k, n) ==
    LET step == IF k.s = <<>> THEN 1 ELSE k.s[1]
        up == step > 0
        lo == IF up THEN 0 ELSE -1
        hi == IF up THEN n ELSE n - 1
        from == Bound(k.a, IF up THEN 0 ELSE n - 1, n, lo, hi)
        to == Bound(k.b, IF up THEN n ELSE -1, n, lo, hi)
        size == IF up THEN (IF to > from THEN (to - from - 1) \div step + 1 ELSE 0)
                ELSE (IF from > to THEN (from - to - 1) \div (-step) + 1 ELSE 0)
    IN  [i \in 1..size |-> from + (i - 1) * step + 1]
KeyRows(k, n) ==
    CASE k.t = "slice" -> SliceRows(k, n)
      [] k.t = "at" -> [i \in DOMAIN k.v |-> (IF k.v[i] < 0 THEN k.v[i] + n ELSE k.v[i]) + 1]
      [] k.t = "mask" -> LET d == TLCEval(Data(k.m))
                         IN  SelectSeq([i \in 1..n |-> i], LAMBDA i : d[i])
=============================================================================
