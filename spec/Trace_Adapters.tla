--------------------------- MODULE Trace_Adapters ---------------------------
(* events [d |-> "i", s |-> source, ops, r |-> results] or                   *)
(*        [d |-> "o", ops, r |-> received]                                   *)
EXTENDS Adapters, Json
CONSTANT TraceFile
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)
Explains(e) == IF e.d = "i" THEN e.r = RunIn(e.s, 0, e.ops, <<>>) ELSE e.r = RunOut(e.ops)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Explains(Trace[l]) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
