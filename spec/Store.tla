------------------------------- MODULE Store -------------------------------
(* C03: which objects a history of calls may change, and what it may answer *)
(*                                                                         *)
(* A history is a sequence of steps over numbered objects. The contents of *)
(* every object after each step are given as tokens (equal tokens: equal   *)
(* contents), answers as tokens of their own. Step:                        *)
(*   op      the call, with its plain parameters                           *)
(*   kind    "call", "copy" or "set" (documented in-place operation)       *)
(*   args    the objects passed, target: the one changed in place (or 0)   *)
(*   new     number of the object returned (or 0)                          *)
(*   of      objects the new one (or the target) may share memory with     *)
(*   ok, res whether it succeeded, and the token of its answer             *)
(*   after   tokens of all objects once it is over                         *)
(* State: contents tok, memory fam (a set of regions for each object), and *)
(* memo, the answers seen so far to each call on each contents.            *)
EXTENDS Common

Fresh == [tok |-> <<>>, fam |-> <<>>, memo |-> <<>>, bad |-> {}]

Shared(s, S) == UNION {s.fam[j]: j \in S}
(* Objects a step may change.                                              *)
Free(s, st) ==
    IF st.kind = "set" /\ st.ok
    THEN {i \in DOMAIN s.tok: s.fam[i] \cap s.fam[st.target] # {}}
    ELSE {}
Disturbed(s, st) == \E i \in DOMAIN s.tok: i \notin Free(s, st) /\ st.after[i] # s.tok[i]
Key(s, st) == <<st.op, [j \in DOMAIN st.args |-> s.tok[st.args[j]]]>>
(* In place, the answer is what the target has become.                     *)
Answer(st) == <<st.ok, st.res, IF st.kind = "set" THEN st.after[st.target] ELSE 0>>
Known(s, key) == {j \in DOMAIN s.memo: s.memo[j][1] = key}
Consistent(s, st, known) == \A j \in known: s.memo[j][2] = Answer(st)
Faithful(s, st) == st.kind = "copy" => st.ok /\ st.new # 0 /\ st.after[st.new] = s.tok[st.args[1]]

WellFormed(s, st) ==
    LET n == Len(s.tok) IN
    /\ st.new \in {0, n + 1}
    /\ Len(st.after) = IF st.new = 0 THEN n ELSE n + 1
    /\ (st.kind = "set") = (st.target # 0)
    /\ st.target \in 0..n /\ Range0(st.args) \subseteq 1..n /\ Range0(st.of) \subseteq 1..n

Step(s, st) ==
    LET n == Len(s.tok)
        key == TLCEval(Key(s, st))
        known == TLCEval(Known(s, key))
        share == Shared(s, Range0(st.of))
        grown == IF st.new # 0
                 THEN Append(s.fam, IF share = {} THEN {n + 1} ELSE share)
                 ELSE IF st.kind = "set" /\ st.ok /\ st.target # 0
                 THEN [i \in DOMAIN s.fam |->           \* those holding the target as well
                         IF i \in Free(s, st) THEN s.fam[i] \cup share ELSE s.fam[i]]
                 ELSE s.fam
    IN  IF ~WellFormed(s, st) THEN [s EXCEPT !.bad = @ \cup {"malformed"}] ELSE
        [tok |-> st.after, fam |-> grown,
         memo |-> IF known = {} THEN Append(s.memo, <<key, Answer(st)>>) ELSE s.memo,
         bad |-> s.bad \cup Failing({
            <<"disturbed", st.ok => ~Disturbed(s, st)>>,
            <<"failed-call-changed", ~st.ok => ~Disturbed(s, st)>>,
            <<"answer", Consistent(s, st, known)>>,
            <<"copy-content", Faithful(s, st)>>})]

RunFrom(s, steps) == FoldLeft(LAMBDA acc, st: TLCEval(Step(acc, st)), s, steps)
BadHistory(steps) == RunFrom(Fresh, steps).bad

Bad(e) == AlwaysBad(e) \cup
    CASE e.k = "hist" -> BadHistory(e.steps)
      [] OTHER -> {}
=============================================================================
