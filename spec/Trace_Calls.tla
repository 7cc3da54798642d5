---------------------------- MODULE Trace_Calls ----------------------------
(* Recorded programs: [s |-> shared values, t |-> transcripts of the threads, *)
(* shared |-> the shared values in the end].                                  *)
EXTENDS Calls, Json
CONSTANT TraceFile
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)
Explains(e) == e.shared = e.s /\ \A i \in 1..Len(e.t) : Thread(e.s, e.t[i][1], e.t[i][2], 1)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Explains(Trace[l]) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================
