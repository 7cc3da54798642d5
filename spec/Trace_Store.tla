----------------------------- MODULE Trace_Store -----------------------------
(* Recorded histories: [init |-> store, h |-> sequence of <<op, result,       *)
(* store after>>, leak |-> allocations not released in the end].              *)
EXTENDS ValueStore, Json

CONSTANT TraceFile
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)

RECURSIVE Follows(_, _, _)
Follows(st, h, i) ==
    IF i > Len(h) THEN TRUE
    ELSE LET r == Apply(st, h[i][1])
         IN /\ Defined(st, h[i][1])
            /\ r[2] = h[i][2]
            /\ r[1] = h[i][3]
            /\ Follows(r[1], h, i + 1)
Explains(e) == e.leak = 0 /\ Follows(e.init, e.h, 1)

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Explains(Trace[l]) = TRUE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
