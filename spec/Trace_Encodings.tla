---------------------------- MODULE Trace_Encodings --------------------------
(* Recorded calls with random selections of encodings.                       *)
EXTENDS Encodings, Json

CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)

Num == VFlt(<<-1, 0, 2, 5>>)
ValueOf(k, s) == IF k = "s" THEN VArr(<<VStr(s), VBool(1), Num, VStr(s)>>) ELSE VObj(<<<<s, VStr(s)>>>>)
TextOf(e, k, s) == LET pl(t) == PlainIn(e, t) IN CASE k = "s" -> pl(<<91, 34>>) \o s \o pl(<<34, 44, 32, 49, 93>>)
                  [] k = "k" -> pl(<<123, 34>>) \o s \o pl(<<34, 58, 34>>) \o s \o pl(<<34, 125>>)
                  [] k = "c" -> pl(<<47, 42>>) \o s \o pl(<<42, 47, 91, 93, 47, 47>>) \o s
Explains(e) ==
    LET c == Effect(e.df, e.sel)
        r == IF e.d = "d" THEN DumpWith(ValueOf(e.shape, e.s), c, e.vw, e.tw, [EOpt EXCEPT !.esc = e.esc])
             ELSE ParseWith(TextOf(c[1], e.shape, e.s), c, e.tw, e.vw)
    IN r = UNSPEC \/ r = e.r

VARIABLE l
vars == l
Init == l = 1
Next == l <= Len(Trace) /\ Explains(Trace[l]) = TRUE /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
