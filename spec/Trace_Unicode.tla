---------------------------- MODULE Trace_Unicode ----------------------------
(* Recorded blocks: [k |-> "e", enc, from, n, u] the units that encoding the  *)
(* code points from .. from+n-1 wrote, <<-1>> for a refusal, each preceded by *)
(* their number; [k |-> "d", enc, u, c, ok] a decoded unit sequence.          *)
EXTENDS Unicode, SequencesExt, TLC, Json

CONSTANT TraceFile
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)

Enc1(enc, c) == LET e == Encode(enc, c) IN IF e = ILLFORMED THEN <<-1>> ELSE <<Len(e)>> \o e
Explains(e) ==
    IF e.k = "e" THEN e.u = FoldLeft(LAMBDA a, i : a \o Enc1(e.enc, e.from + i - 1), <<>>, [i \in 1..e.n |-> i])
    ELSE Decode(e.enc, e.u) = <<e.c, e.ok>>

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Explains(Trace[l]) = TRUE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
