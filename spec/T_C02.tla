---- MODULE T_C02 ----
(* Trace validation of C02: every recorded event must be one that       *)
(* MaskTree allows; Bad(e) names the clauses it breaks.                     *)
EXTENDS MaskTree, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Judge(e) == LET b == Bad(e) IN
    \/ b = {}
    \/ PrintT("FAIL " \o ToString(e.id) \o " " \o ToString(b))
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
====
