--------------------------- MODULE Trace_Handlers ---------------------------
(* Recorded histories: [c (calls), hs (option lists), nest (message),        *)
(* h: per call <<what it does without handler, what it did, handlers>>]      *)
EXTENDS Handlers, Json

CONSTANT TraceFile
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)

\* what the exception of call i says
Msg(e, i) == IF i = 0 THEN <<>> ELSE IF i = NEST THEN e.nest ELSE e.h[i][1][3]
Show(e, st) == <<Msg(e, st.r1), Msg(e, st.r2), st.cn, Msg(e, st.cm), st.gn, Msg(e, st.gm), st.on, st.xn>>
SameResult(e, o, r) ==
    CASE r[1] = "v" -> o[1] = "v" /\ Agree(r[2], o[2])
      [] r[1] = "t" -> o = r
      [] r[1] = "s" -> o[1] \in {"v", "t"}
      [] r[1] = "own" -> o = <<"own">>
      [] r[1] = "x" -> o[1] = "x" /\ o[2] = r[2] /\ o[3] = Msg(e, r[3])
Explains(e) ==
    LET RECURSIVE Go(_, _)
        Go(st, i) ==
            IF i > Len(e.c) THEN TRUE
            ELSE LET f == Fails(e.c[i])
                     pr == e.h[i][1]
                     cls == IF f = {} THEN "" ELSE IF pr[1] = "x" THEN pr[2] ELSE "?"
                     r == HStep(st, e.c[i], e.hs[i], i, cls)
                 IN IF f # {} /\ cls \notin f THEN FALSE
                    ELSE IF r[2] = Free THEN TRUE
                    ELSE /\ f = {} => SameResult(e, pr, r[2])
                         /\ SameResult(e, e.h[i][2], r[2])
                         /\ e.h[i][3] = Show(e, r[1])
                         /\ Go(r[1], i + 1)
    IN e.nest # <<>> /\ Len(e.h) = Len(e.c) /\ Go(HInit, 1)

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Explains(Trace[l]) = TRUE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
