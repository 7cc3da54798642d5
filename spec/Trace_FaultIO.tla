--------------------------- MODULE Trace_FaultIO ---------------------------
(* Recorded parses and dumps with faults (see h_faultio).                    *)
EXTENDS FaultIO, Json
CONSTANT TraceFile
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)

Agrees(r, text) == IF Read(text) = REJECT THEN Failed(r) ELSE r[1] = "v" /\ Agree(Read(text), r[2])
ParseAlloc(e) ==
    /\ Agrees(e.ok, e.t)
    /\ \A i \in 1..Len(e.f) : LET a == e.f[i][1] b == e.f[i][2]
                              IN (IF Failed(a) THEN a[2] \in MemoryFail ELSE a = e.ok) /\ b = e.ok
ParseSource(e) ==
    /\ Agrees(e.ok, e.t)
    /\ \A i \in 1..Len(e.f) : LET o == SourceOutcome(e.t, e.f[i][1]) r == e.f[i][2]
                              IN IF o = REJECT THEN Failed(r) ELSE r = e.ok
Opt(e) == [DefaultOpt EXCEPT !.step = e.step, !.ch = e.ch, !.esc = e.esc]
Text(e) == Layout(e.v, IF e.form = "<" THEN DefaultOpt ELSE Opt(e), 0)
DumpAlloc(e) ==
    IF Unwritable(e.v) THEN Failed(e.ok) /\ \A i \in 1..Len(e.f) : Failed(e.f[i][1]) /\ Failed(e.f[i][2]) /\ e.f[i][3] = e.f[1][3]
    ELSE /\ e.ok = <<"t", Text(e)>>
         /\ \A i \in 1..Len(e.f) : LET a == e.f[i][1]
                                   IN (IF Failed(a) THEN a[2] \in MemoryFail ELSE a = e.ok) /\ e.f[i][2] = e.ok /\ e.f[i][3] = e.v
DumpSink(e) ==
    IF Unwritable(e.v) THEN Failed(e.ok)
    ELSE LET t == Text(e) n == ULen(t, e.unit)
         IN /\ e.ok = <<"t", t>>
            /\ Len(e.f) = n + 1
            /\ \A i \in 1..Len(e.f) : LET f == e.f[i]
                                      IN (f[2] = "ok") = (f[1] >= n) /\ IsPre(f[3], t) /\ (f[2] = "ok" => f[3] = t)
Explains(e) ==
    /\ e.leak = 0
    /\ CASE e.kind = "pa" -> ParseAlloc(e)
         [] e.kind = "ps" -> ParseSource(e)
         [] e.kind = "da" -> DumpAlloc(e)
         [] e.kind = "dw" -> DumpSink(e)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Explains(Trace[l]) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
