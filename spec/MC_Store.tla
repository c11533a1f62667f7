----------------------------- MODULE MC_Store ------------------------------
(* Objects with memory and a cache, as an implementation keeps them, run   *)
(* beside the values they are meant to have. Without a fault the monitor   *)
(* of Store never objects; whatever it objects to is a departure from the  *)
(* meant values; and every departure is found once each object has been    *)
(* rebuilt from its contents and asked again. Histories without a fault    *)
(* are replayed on the real types.                                         *)
EXTENDS Store, Json
CONSTANTS Values, MaxObjs, MaxSteps, MaxQueries, Faults, Emit
VARIABLES fault, heap, objs, meant, hist, script

(* objs[i]: buf, cache (0: nothing kept), cbuf (where the kept answer is), *)
(* role "data" or "answer". meant[i] is the value it should have, and a region  *)
(* of memory it should have it in.                                         *)
vars == <<fault, heap, objs, meant, hist, script>>
F(v) == 100 + v
Content(o, h) == h[o.buf]
After(os, h) == [i \in DOMAIN os |-> Content(os[i], h)]
Data == {i \in DOMAIN objs: objs[i].role = "data"}
Room == Len(objs) < MaxObjs
Queries == Len(SelectSeq(script, LAMBDA x: x[1] = "query"))
Sharing(i) == {j \in DOMAIN meant: meant[j].at = meant[i].at}
M(v) == [v |-> v, at |-> Len(script) + 2]
Rec(op, kind, args, target, new, of, ok, res, os, h) ==
    [op |-> op, kind |-> kind, args |-> args, target |-> target, new |-> new, of |-> of,
     ok |-> ok, res |-> res, after |-> After(os, h)]
Do(rec, os, h, m, what) ==
    /\ Len(script) < MaxSteps
    /\ objs' = os /\ heap' = h /\ meant' = m /\ hist' = Append(hist, rec)
    /\ script' = Append(script, what) /\ UNCHANGED fault

Plain(b) == [buf |-> b, cache |-> 0, cbuf |-> 0, role |-> "data"]
New(v) ==
    LET os == Append(objs, Plain(Len(heap) + 1))
        h == Append(heap, v)
    IN  Room /\ Do(Rec("new" \o ToString(v), "call", <<>>, 0, Len(os), <<>>, TRUE, v, os, h), os, h,
                   Append(meant, M(v)), <<"new", v>>)
Copy(i) ==
    LET shared == fault = "shared copy"
        h == IF shared THEN heap ELSE Append(heap, heap[objs[i].buf])
        o == [Plain(IF shared THEN objs[i].buf ELSE Len(h)) EXCEPT
              !.cache = IF fault = "cache follows" THEN objs[i].cache ELSE 0,
              !.cbuf = IF fault = "cache follows" THEN objs[i].cbuf ELSE 0]
        os == Append(objs, o)
    IN  Room /\ Do(Rec("copy", "copy", <<i>>, 0, Len(os), <<>>, TRUE, heap[objs[i].buf], os, h), os, h,
                   Append(meant, M(meant[i].v)), <<"copy", i>>)
View(i) ==
    LET os == Append(objs, Plain(objs[i].buf))
    IN  Room /\ Do(Rec("view", "call", <<i>>, 0, Len(os), <<i>>, TRUE, heap[objs[i].buf], os, heap), os, heap,
                   Append(meant, meant[i]), <<"view", i>>)
Dropped(o) == IF fault \in {"stale", "cache follows"} THEN o ELSE [o EXCEPT !.cache = 0, !.cbuf = 0]
(* The contents of an object are replaced: those sharing them keep theirs. *)
Replace(i, v) ==
    LET h == Append(heap, v)
        os == [objs EXCEPT ![i] = [Dropped(@) EXCEPT !.buf = Len(h)]]
    IN  Do(Rec("replace" \o ToString(v), "set", <<i>>, i, 0, <<>>, TRUE, 0, os, h), os, h,
           [meant EXCEPT ![i] = M(v)], <<"replace", i, v>>)
(* ... or modified in place, while no other object keeps answers on them.  *)
InPlace(i) ==
    LET v == (heap[objs[i].buf] % Cardinality(Values)) + 1
        h == [heap EXCEPT ![objs[i].buf] = v]
        os == [objs EXCEPT ![i] = Dropped(@)]
    IN  /\ \A j \in Sharing(i) \ {i}: objs[j].cache = 0
        /\ Do(Rec("inplace", "set", <<i>>, i, 0, <<>>, TRUE, 0, os, h), os, h,
              [j \in DOMAIN meant |-> IF j \in Sharing(i) THEN [meant[j] EXCEPT !.v = v] ELSE meant[j]],
              <<"inplace", i>>)
(* A query answers with an array which is also kept for the next time. (A  *)
(* wrong answer is a departure of the kept one, before it is given.)       *)
Query(i) ==
    LET kept == objs[i].cache # 0
        val == IF kept THEN heap[objs[i].cbuf] ELSE F(heap[objs[i].buf])
        h == IF kept THEN heap ELSE Append(heap, val)
        b == IF kept THEN objs[i].cbuf ELSE Len(h)
        os == Append([objs EXCEPT ![i].cache = 1, ![i].cbuf = b], [Plain(b) EXCEPT !.role = "answer"])
    IN  /\ Room /\ Queries < MaxQueries
        /\ Do(Rec("query", "call", <<i>>, 0, Len(os), <<>>, TRUE, val, os, h), os, h,
              Append(meant, M(val)), <<"query", i>>)
(* A call which works with the kept answer of its argument.                *)
Work(i) ==
    LET h == IF fault = "scratch" /\ objs[i].cache # 0 THEN [heap EXCEPT ![objs[i].cbuf] = 99]
             ELSE IF fault = "input" THEN [heap EXCEPT ![objs[i].buf] = 99] ELSE heap
    IN  Do(Rec("work", "call", <<i>>, 0, 0, <<>>, TRUE, 50 + meant[i].v, objs, h), objs, h, meant, <<"work", i>>)
Fail(i) ==
    LET v == (heap[objs[i].buf] % Cardinality(Values)) + 1
        h == IF fault = "partial" THEN [heap EXCEPT ![objs[i].buf] = v] ELSE heap
    IN  Do(Rec("fail", "set", <<i>>, i, 0, <<>>, FALSE, 0, objs, h), objs, h, meant, <<"fail", i>>)

Init == /\ fault \in Faults
        /\ heap = <<1>> /\ objs = <<Plain(1)>> /\ meant = <<[v |-> 1, at |-> 1]>> /\ script = <<>>
        /\ hist = <<Rec("new1", "call", <<>>, 0, 1, <<>>, TRUE, 1, <<Plain(1)>>, <<1>>)>>
Next == \/ \E v \in Values: New(v)
        \/ \E i \in Data: Copy(i) \/ View(i) \/ InPlace(i) \/ Query(i) \/ Work(i) \/ Fail(i)
        \/ \E i \in Data, v \in Values: Replace(i, v)
Spec == Init /\ [][Next]_vars

(* Each object is rebuilt from its contents, and both are asked.           *)
Probe ==
    LET steps(i) ==
            LET v == heap[objs[i].buf]
                n == Len(objs)
                os == Append(objs, Plain(objs[i].buf))
                got == IF objs[i].cache # 0 THEN heap[objs[i].cbuf] ELSE F(v)
            IN  <<[Rec("rebuild", "call", <<i>>, 0, n + 1, <<>>, TRUE, v, os, heap) EXCEPT !.op = "rebuild"],
                  Rec("query", "call", <<n + 1>>, 0, 0, <<>>, TRUE, F(v), os, heap),
                  Rec("query", "call", <<i>>, 0, 0, <<>>, TRUE, got, os, heap)>>
    IN  {steps(i): i \in Data}
Found == LET s == TLCEval(RunFrom(Fresh, hist)) IN
         s.bad # {} \/ \E p \in Probe: RunFrom(s, p).bad # {}
Departed == \/ \E i \in DOMAIN objs: heap[objs[i].buf] # meant[i].v
            \/ \E i \in Data: objs[i].cache # 0 /\ heap[objs[i].cbuf] # F(heap[objs[i].buf])
Quiet == fault = "none" => ~Found /\ ~Departed
Sound == BadHistory(hist) # {} => fault # "none"
Complete == Departed => Found
Meaningful == Found => fault # "none"
Maximal == Len(script) = MaxSteps
Emitted == (Emit /\ fault = "none" /\ Maximal) => PrintT("CASE " \o ToJson([script |-> script]))
=============================================================================
