"""Writes the trace specification T_<id>.tla of each stateless property."""
import sys
T = '''---- MODULE T_%(id)s ----
(* Trace validation of %(id)s: every recorded event must be one that       *)
(* %(mod)s allows; Bad(e) names the clauses it breaks.                     *)
EXTENDS %(mod)s, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Judge(e) == LET b == Bad(e) IN
    \\/ b = {}
    \\/ PrintT("FAIL " \\o ToString(e.id) \\o " " \\o ToString(b))
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\\ Judge(Trace[l]) /\\ l' = l + 1
TraceSpec == TraceInit /\\ [][TraceNext]_l
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
====
'''
for arg in sys.argv[1:]:
    pid, mod = arg.split("=")
    open(f"T_{pid}.tla", "w").write(T % {"id": pid, "mod": mod})
