--------------------------- MODULE Trace_Iterators ---------------------------
EXTENDS Iterators, Json
CONSTANT TraceFile
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)
Match(res, obs) == IF res = Err("any") THEN obs \in {Err("range"), Err("iter")} ELSE obs = res
RECURSIVE Follows(_, _, _)
Follows(st, h, i) ==
    IF i > Len(h) THEN TRUE
    ELSE LET r == Apply(st, h[i][1])
         IN /\ Defined(st, h[i][1])
            /\ Match(r[2], h[i][2])
            /\ r[1] = h[i][3]
            /\ Follows(r[1], h, i + 1)
Explains(e) == Follows(e.init, e.h, 1)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Explains(Trace[l]) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
