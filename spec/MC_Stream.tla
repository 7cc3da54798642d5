------------------------------ MODULE MC_Stream -----------------------------
(* Every sequence of Depth operations from the set Ops.                      *)
EXTENDS Stream, JsonReader, Json, TLC

CONSTANTS Ops, Depth

VARIABLES st, hist, shown, txt      \* txt: the individual texts
vars == <<st, hist, shown, txt>>

Init == st = SInit /\ hist = <<>> /\ shown = <<>> /\ txt = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops :
             /\ CanStep(st, op)
             /\ LET n == Step(st, op)
                IN /\ st' = n
                   /\ hist' = Append(hist, op)
                   /\ shown' = Append(shown, Shown(n))
                   /\ txt' = txt \o SubSeq(n.out, Len(st.out) + 1, Len(n.out))
Spec == Init /\ [][Next]_vars

Concatenated == st.out = txt
IsDump(op) == op[1] \in {"d", "wr", "wt", "ds", "dr", "dx"}
\* a dump changes no formatting state but the width, which it resets
Preserved == [][IsDump(hist'[Len(hist')]) => [st' EXCEPT !.w = st.w, !.out = st.out, !.str = st.str] = st]_vars
WidthReset == [][(hist'[Len(hist')][1] \in {"d", "wr", "wt", "dx"} /\ st.ok) => st'.w = 0]_vars
\* a failed stream takes nothing
FailedTakesNothing == [][~st.ok => st'.out = st.out]_vars
\* what a dump wrote denotes the value, whatever the formatting state (blank fill)
LastOp == hist'[Len(hist')]
Readable == [][(LastOp[1] \in {"d", "wr", "wt"} /\ st.ok /\ st.fill \in {32, 9, 10})
               => LET t == SubSeq(st'.out, Len(st.out) + 1, Len(st'.out))
                      o == IF LastOp[1] = "d" THEN Opts(Base(st), LastOp[3]) ELSE Base(st)
                  IN o.ch \in {32, 9} => Read(t) = Rounded(LastOp[2], o)]_vars

Emit == Len(hist) = Depth => PrintT(ToJson(<<hist, shown, st.out, st.str>>))
=============================================================================
