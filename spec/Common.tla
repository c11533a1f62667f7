------------------------------- MODULE Common -------------------------------
(* Definitions shared by the specification modules of graphicle.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Abs(n) == IF n < 0 THEN -n ELSE n
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Range0(s) == {s[i] : i \in DOMAIN s}
Idx(s) == 1..Len(s)

(* Particles are numbered 1..n; a mask is a sequence of n booleans.        *)
TrueSet(m) == {i \in 1..Len(m) : m[i]}
MaskOf(S, n) == [i \in 1..n |-> i \in S]

(* Ascending sequence of a set of integers.                                *)
Ascending(S) == SetToSortSeq(S, LAMBDA a, b: a < b)
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc: f(x) + acc, 0, S)
SumSeq(s) == FoldLeft(LAMBDA acc, x: acc + x, 0, s)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

(* Keeps the elements of s whose position satisfies the mask m.            *)
Compress(s, m) == [j \in 1..Cardinality(TrueSet(m)) |->
                      s[Ascending(TrueSet(m))[j]]]
Take(s, idx) == [j \in 1..Len(idx) |-> s[idx[j]]]

(* Names of the clauses of a set of <<name, holds>> pairs which fail.      *)
Failing(cl) == {c[1] : c \in {x \in cl : ~x[2]}}

(* Verdicts every trace specification shares.                              *)
AlwaysBad(e) == IF e.k = "hang" THEN {"no-termination"}
                ELSE IF e.k = "died" THEN {"process-died"}
                ELSE IF e.k = "unexpected" THEN {"unexpected-error"}
                ELSE {}

Within(x, lo, hi) == lo <= x /\ x <= hi
Near(x, y, tol) == Abs(x - y) <= tol
=============================================================================
