---------------------------- MODULE Trace_Access ----------------------------
(* events [v, f, k, x, r |-> outcome, w |-> value afterwards]                 *)
EXTENDS Access, Json
CONSTANT TraceFile
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)
Explains(e) == <<e.r, e.w>> = Read(e.v, e.f, e.k, e.x)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Explains(Trace[l]) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
