---------------------------- MODULE Trace_Sources ---------------------------
(* Recorded histories of one source: [kind, s (text), ty, v0, ops, h]        *)
EXTENDS Sources, Json

CONSTANTS TraceFile, Types
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)

SameV(x, y) == x = Left \/ Agree(x, y)
Explains(e) ==
    LET T == Types[e.ty][1]
        RECURSIVE Go(_, _)
        Go(st, i) ==
            \* nothing is promised of a source whose position is lost
            IF i > Len(e.h) \/ Can(st, e.ops[i]) = FALSE THEN TRUE
            ELSE LET n == Step(T, st, e.ops[i])
                 IN \/ n.res = <<"x", "free">>
                    \/ /\ n.res = e.h[i][1]
                       /\ SameV(n.st.v, e.h[i][2])
                       /\ Same(T, n.st.t, e.h[i][3])
                       /\ Go(n.st, i + 1)
    IN Go(SrcInit(e.kind, e.s, e.v0, Types[e.ty][2]), 1)

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Explains(Trace[l]) = TRUE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
