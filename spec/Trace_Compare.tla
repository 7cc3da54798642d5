---------------------------- MODULE Trace_Compare ----------------------------
(* events [x, y, r |-> six comparisons, s |-> sequence of further results that *)
(* must be the same]                                                          *)
EXTENDS Compare, Json
CONSTANT TraceFile
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)
Among(r, rs) == rs = <<>> \/ \E i \in 1..Len(rs) : rs[i] = r
Explains(e) == Among(e.r, Results(e.x, e.y)) /\ \A i \in 1..Len(e.s) : e.s[i] = e.r
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Explains(Trace[l]) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
