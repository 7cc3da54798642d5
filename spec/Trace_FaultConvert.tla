------------------------- MODULE Trace_FaultConvert -------------------------
(* Recorded conversions whose allocations failed in turn.                    *)
(*  op "to":   x native, p prior target, ok <<class, value>>,                *)
(*             f sequence of <<class, target or value, after a repetition>>  *)
(*  op "from": v source, p prior target, form, ok <<0|1, native, source>>,   *)
(*             f sequence of <<0|1|class, native, source, <<repetition>>>>   *)
(* A conversion struck by a fault completes as it does without, or raises    *)
(* the failure; then an assigned value holds what it held, the source of a   *)
(* conversion into a native is untouched (the native may be partly written), *)
(* and the conversion can be repeated.                                       *)
EXTENDS Convert, Json
CONSTANT TraceFile, Types
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)

Completed(T, e, flag, y) ==
    LET r == From(T, e.v, e.p)
    IN CASE r[1] = 2 -> flag # "alloc"
         [] r[1] = 1 -> flag = "1" /\ Same(T, r[2], y)
         [] r[1] = 0 -> IF e.form = "t" THEN flag = "0" /\ Same(T, r[2], y) ELSE flag \notin {"1", "alloc", "bad"}
Undefined(T, e) == From(T, e.v, e.p)[1] = 2
ToLeft(T, e, f) ==
    \/ f[1] = "ok" /\ f[2] = To(T, e.x)
    \/ f[1] = "alloc" /\ (e.form = "a" => f[2] = e.p) /\ (e.form # "m" => f[3] = To(T, e.x))
FromLeft(T, e, f) ==
    /\ f[3] = e.v
    /\ (f[1] = "alloc" \/ Completed(T, e, f[1], f[2]))
    /\ Completed(T, e, f[4][1], f[4][2])
Explains(e) ==
    LET T == Types[e.t]
    IN /\ e.leak = 0
       /\ IF e.op = "to" THEN e.ok[1] = "ok" /\ e.ok[2] = To(T, e.x) /\ \A i \in 1..Len(e.f) : ToLeft(T, e, e.f[i])
          ELSE Undefined(T, e) \/ (Completed(T, e, e.ok[1], e.ok[2]) /\ e.ok[3] = e.v /\ \A i \in 1..Len(e.f) : FromLeft(T, e, e.f[i]))
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Explains(Trace[l]) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
