---------------------------- MODULE Trace_Faults ----------------------------
(* Recorded histories with faults: [init, h: sequence of <<op, struck?,      *)
(* result, store after>>, leak].                                             *)
EXTENDS Faults, Json

CONSTANT TraceFile
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)

RECURSIVE Follows(_, _, _)
Follows(st, h, i) ==
    IF i > Len(h) THEN TRUE
    ELSE LET op == h[i][1] o == <<h[i][4], h[i][3]>>
         IN /\ Defined(st, op)
            /\ IF h[i][2] = 1 THEN o \in FaultOutcomes(st, op) ELSE o = Apply(st, op)
            /\ Follows(h[i][4], h, i + 1)
Explains(e) == e.leak = 0 /\ Follows(e.init, e.h, 1)

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Explains(Trace[l]) = TRUE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
