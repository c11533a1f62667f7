---- MODULE T_C05 ----
(* Trace validation of C05: every recorded event must be one that       *)
(* Selection allows; Bad(e) names the clauses it breaks.                     *)
EXTENDS Selection, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Judge(e) == LET b == Bad(e) IN
    \/ b = {}
    \/ PrintT("FAIL " \o ToString(e.id) \o " " \o ToString(b))
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
====
