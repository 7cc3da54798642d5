---------------------------- MODULE Trace_Writer ----------------------------
(* Recorded dumps:                                                           *)
(*  [k |-> "d", v, o, t]  text  = layout of v      [.. x |-> class] failure  *)
(*  [k |-> "r", v, o, b]  value read back = v with floats rounded            *)
EXTENDS JsonReader, JsonWriter, Json

CONSTANT TraceFile
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)

Opt(a) == [step |-> a[1], ch |-> a[2], esc |-> a[3], prec |-> a[4], fmt |-> a[5]]

Explains(e) ==
    LET o == Opt(e.o)
        v == WrappedBy(e, e.v)
    IN IF Unwritable(v) THEN "x" \in DOMAIN e /\ e.x = "ser"
       ELSE IF e.k = "d" THEN "t" \in DOMAIN e /\ e.t = Layout(v, o, 0)
       ELSE "b" \in DOMAIN e /\ Agree(Rounded(v, o), WrappedBy(e, e.b))

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Explains(Trace[l]) = TRUE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
