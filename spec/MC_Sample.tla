----------------------------- MODULE MC_Sample ------------------------------
(* The classes of directions partition them into equal parts: every        *)
(* symmetry of a lattice of directions maps classes onto classes, and the  *)
(* bands of a finely sampled sphere hold equal numbers. Frequencies: the   *)
(* expected one is plausible, plausibility is an interval and symmetric,   *)
(* and a class twice as likely as it should be is found out. Requests for  *)
(* draws are replayed in the real code.                                    *)
EXTENDS Sampling, Json
CONSTANTS Reach, Most, Sizes, Emit
VARIABLES d, ask

Dirs == {r \in [1..3 -> -Reach..Reach]: r # <<0, 0, 0>>}
Init == \/ d \in Dirs /\ ask = [none |-> TRUE]
        \/ /\ d = <<0, 0, 1>>
           /\ ask \in [none: {FALSE}, size: Sizes, q: {0, 250, 1000}, seed: 0..2]
           /\ Emit => PrintT("CASE " \o ToJson([size |-> ask.size, q |-> ask.q, seed |-> ask.seed]))
Next == FALSE /\ UNCHANGED <<d, ask>>
Spec == Init /\ [][Next]_<<d, ask>>

Neg3(r) == <<-r[1], -r[2], -r[3]>>
Swap(r) == <<r[2], r[1], r[3]>>
Classes == /\ Band(d) \in 1..8 /\ Octant(d) \in 1..8
Mirrored ==
    /\ d[3] # 0 => Band(<<d[1], d[2], -d[3]>>) = 9 - Band(d)
    /\ Band(Swap(d)) = Band(d) /\ Band(<<-d[1], d[2], d[3]>>) = Band(d)
    /\ (d[1] # 0 /\ d[2] # 0 /\ Abs(d[1]) # Abs(d[2])) =>
         Cardinality({Octant(<<s * a, t * b, d[3]>>): s, t \in {-1, 1}, a \in {d[1]}, b \in {d[2]}}
                     \cup {Octant(<<s * a, t * b, d[3]>>): s, t \in {-1, 1}, a \in {d[2]}, b \in {d[1]}}) = 8
    /\ \A k \in 2..3: Band([i \in 1..3 |-> k * d[i]]) = Band(d) /\ Octant([i \in 1..3 |-> k * d[i]]) = Octant(d)
(* By Archimedes equal bands of z are equal areas: z = h |p| / 8.          *)
Bands == \A z \in -3..4:
    LET h == 2 * z - 1                            \* the middle of a band
        x == CHOOSE v \in 0..80: v * v <= 6400 - 100 * h * h /\ (v + 1) * (v + 1) > 6400 - 100 * h * h
    IN  Band(<<x, 0, 10 * h>>) = z + 4
Expected == \A n \in {0, 1, 10, 64, 640, 10000, 50000}:
    /\ Plausible(n \div 64, n, 1, 64) /\ Plausible(n \div 2, n, 1, 2)
    /\ \A k \in {0, n \div 3, n}: Plausible(k, n, 3, 10) = Plausible(n - k, n, 7, 10)
Interval == \A n \in {50, Most}: \A k \in 1..(n - 1):
    Plausible(k, n, 1, 8) => /\ (8 * k >= n + 8 => Plausible(k - 1, n, 1, 8))
                             /\ (8 * k <= n - 8 => Plausible(k + 1, n, 1, 8))
Detects == /\ ~Plausible(5000, 20000, 1, 8) /\ ~Plausible(0, 20000, 1, 64) /\ ~Plausible(1000, 20000, 1, 8)
           /\ ~Plausible(700, 20000, 1, 64) /\ ~Plausible(8000, 20000, 1, 2) /\ ~Plausible(12000, 20000, 1, 2)
Once == d = <<0, 0, 1>> /\ ask.none => Bands /\ Expected /\ Interval /\ Detects
=============================================================================
