------------------------------- MODULE MC_Jets ------------------------------
(* Sequential recombination of every small set of particles on a lattice,  *)
(* step by step, with every choice between equal distances: the pseudojets *)
(* and jets are always a partition, it ends, and where no distances are    *)
(* equal the jets are those of Cluster, whatever the order of particles; a *)
(* wide radius gives one jet and a narrow one leaves all alone. Sets are   *)
(* replayed in the real code. (Pseudojets are recombined here by the mean  *)
(* of positions weighted by pt.)                                           *)
EXTENDS Jets, Json
CONSTANTS Most, Radii, Powers, Emit
VARIABLES ps, going, st, par

PowersSmall == {-2, 0, 2}
PowersTwo == {-2, 0}
(* [steps of rapidity, steps of azimuth, pt]                               *)
Lattice == {<<0, 0, 2>>, <<1, 0, 3>>, <<2, 1, 5>>, <<-1, 2, 7>>, <<0, 7, 11>>}
Step == 500000
Members(S) == Ascending(S)
PtOf(S, p) == SumSeq([i \in 1..Len(Members(S)) |-> p[Members(S)[i]][3]])
Mean(S, p, k) == (Step * SumSeq([i \in 1..Len(Members(S)) |-> p[Members(S)[i]][3] * p[Members(S)[i]][k]])) \div PtOf(S, p)
WOf(pt, k) == IF k >= 0 THEN Shift(PowB(B(pt), k), 2) ELSE CASE pt > 0 -> B(1000000000 \div (pt ^ (-k)))
TableOf(p, k) == TLCEval([S \in (SUBSET DOMAIN p) \ {{}} |->
    [rap |-> Mean(S, p, 1), phi |-> Mean(S, p, 2), pt |-> B(PtOf(S, p)), w |-> WOf(PtOf(S, p), k), beam |-> FALSE,
     eta |-> [c |-> "fin", v |-> B(Mean(S, p, 1))]]])
R2 == Sq32(par.r)
Tab == TableOf(ps, par.k)

Init == ps = <<>> /\ going = FALSE /\ st = [ps |-> <<>>, ds |-> <<>>, jets |-> {}, sure |-> TRUE] /\ par = [r |-> 0, k |-> 0]
Place == /\ ~going /\ Len(ps) < Most
         /\ \E p \in Lattice: ps' = Append(ps, p)
         /\ UNCHANGED <<going, st, par>>
         /\ Emit => PrintT("CASE " \o ToJson([points |-> ps']))
Begin == /\ ~going /\ ps # <<>> /\ going' = TRUE
         /\ \E r \in Radii, k \in Powers:
              /\ par' = [r |-> r, k |-> k]
              /\ st' = Start(TableOf(ps, k), [i \in DOMAIN ps |-> {i}], Sq32(r))
         /\ UNCHANGED ps
Go == /\ going /\ st.ps # <<>>
      /\ LET x == Least(st.ds) IN
         \E i \in DOMAIN st.ds: st.ds[i][1] = x[1] /\ st' = Apply(Tab, st, st.ds[i], R2)
      /\ UNCHANGED <<ps, going, par>>
Next == Place \/ Begin \/ Go
Spec == Init /\ [][Next]_<<ps, going, st, par>> /\ WF_<<ps, going, st, par>>(Begin \/ Go)

Parts == Range0(st.ps) \cup st.jets
Partition == going => /\ UNION Parts = DOMAIN ps
                      /\ \A S, T \in Parts: S = T \/ S \cap T = {}
                      /\ Len(st.ps) = Cardinality(Range0(st.ps)) /\ st.sure
Tracked == going => Range0([i \in DOMAIN st.ds |-> <<st.ds[i][2], st.ds[i][3]>>])
                    = Range0([i \in DOMAIN AllD(Tab, st.ps, R2) |-> <<AllD(Tab, st.ps, R2)[i][2], AllD(Tab, st.ps, R2)[i][3]>>])
Done == going /\ st.ps = <<>>
Ref == Cluster(Tab, Start(Tab, [i \in DOMAIN ps |-> {i}], R2), R2)
Confluent == Done /\ Ref.sure => Ref.jets = st.jets
Turned == Done /\ Ref.sure =>
    LET n == Len(ps)
        back == [i \in 1..n |-> ps[n + 1 - i]]
        t == TableOf(back, par.k)
        end == Cluster(t, Start(t, [i \in 1..n |-> {i}], R2), R2)
    IN  end.sure => {{n + 1 - i: i \in S}: S \in end.jets} = st.jets
Extremes == Done =>
    /\ par.r >= 20000000 => Cardinality(st.jets) = 1
    /\ par.r <= 1000 => \A S \in st.jets: \A i, j \in S: <<ps[i][1], ps[i][2]>> = <<ps[j][1], ps[j][2]>>
Ends == <>[](~going \/ st.ps = <<>>)
(* Cuts keep what they should, and a cut result passes its own check.      *)
ByPt == SetToSortSeq(st.jets, LAMBDA a, b: Lt(Tab[b].pt, Tab[a].pt))
CutOk == Done => \A m \in 0..3: \A cut \in {0, 3, 10}:
    LET c == [pt |-> [on |-> TRUE, v |-> Mul(B(2), B(cut))], eta |-> [on |-> FALSE, v |-> Zero], limit |-> [on |-> m > 0, whole |-> TRUE, n |-> m]]
        doubled == [S \in DOMAIN Tab |-> [Tab[S] EXCEPT !.pt = Mul(B(2), @)]]
        kept == SelectSeq(ByPt, LAMBDA S: cut <= PtOf(S, ps))
        got == IF m > 0 /\ m < Len(kept) THEN SubSeq(kept, 1, m) ELSE kept
    IN  Falling(doubled, got) /\ ((\E S \in st.jets: OnEdge(doubled[S], c)) \/ CutsBad(doubled, got, st.jets, c) = {})
=============================================================================
