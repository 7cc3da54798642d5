---------------------------- MODULE Trace_Reader ----------------------------
(* Recorded parses: each event [t |-> text (code points), v |-> value] or    *)
(* [t |-> text, x |-> exception class] must be what the machine says.        *)
EXTENDS JsonReader, Json

CONSTANT TraceFile
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)

Explains(e) ==
    LET r == Read(e.t)
    IN IF r = REJECT THEN "x" \in DOMAIN e /\ e.x = "deser"
       ELSE "v" \in DOMAIN e /\ Agree(r, WrappedBy(e, e.v))

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Explains(Trace[l]) = TRUE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
