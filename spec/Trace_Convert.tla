--------------------------- MODULE Trace_Convert ---------------------------
(* events <<"to", type index, native as iterated, value>>                    *)
(*        <<"from", type index, source, prior, form, ok, native>>            *)
EXTENDS Convert, Json
CONSTANT TraceFile, Types
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)
Explains(e) ==
    LET T == Types[e.t]
    IN IF e.op = "to" THEN e.v = To(T, e.x)
       ELSE LET r == From(T, e.v, e.p)
            IN CASE r[1] = 2 -> e.ok \in {0, 1}
                 [] r[1] = 1 -> e.ok = 1 /\ Same(T, r[2], e.x)
                 [] r[1] = 0 -> e.ok = 0 /\ (e.form = "t" => Same(T, r[2], e.x))
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Explains(Trace[l]) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
