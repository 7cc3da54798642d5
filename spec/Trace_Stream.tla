---------------------------- MODULE Trace_Stream ----------------------------
(* Recorded histories of one stream: [ops, h (what was shown after each      *)
(* operation), t (what the sink received), s (the string dumped to)]         *)
EXTENDS Stream, Json

CONSTANT TraceFile
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)

Explains(e) ==
    LET RECURSIVE Go(_, _)
        Go(st, i) ==
            IF i > Len(e.ops) THEN e.t = st.out /\ e.s = st.str
            ELSE CanStep(st, e.ops[i]) /\ LET n == Step(st, e.ops[i]) IN Shown(n) = e.h[i] /\ Go(n, i + 1)
    IN Len(e.h) = Len(e.ops) /\ Go(SInit, 1)

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Explains(Trace[l]) = TRUE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
