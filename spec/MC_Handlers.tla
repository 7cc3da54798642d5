----------------------------- MODULE MC_Handlers ----------------------------
(* Every sequence of Depth calls from Calls with option lists from Lists.    *)
EXTENDS Handlers, Json, TLC

CONSTANTS Calls, Lists, Depth
VARIABLES st, n, hist
vars == <<st, n, hist>>

\* evaluated once
Table == [i \in 1..Len(Calls) |-> LET f == Fails(Calls[i]) IN <<f, IF f = {} THEN Result(Calls[i]) ELSE <<>>>>]
ASSUME TLCSet(11, TLCEval(Table))
Outcome(i) == TLCGet(11)[i]

Init == st = HInit /\ n = 0 /\ hist = <<>>
Next == /\ n < Depth
        /\ \E i \in 1..Len(Calls), hs \in Lists :
             LET o == Outcome(i)
             IN \E cls \in (IF o[1] = {} THEN {""} ELSE o[1]) :
                  LET r == IF cls = "" THEN <<st, o[2]>> ELSE HStep(st, Calls[i], hs, n + 1, cls)
                  IN /\ r[2] # Free
                     /\ st' = r[1]
                     /\ n' = n + 1
                     /\ hist' = Append(hist, <<i, hs, cls, r[2], HShown(r[1])>>)
Spec == Init /\ [][Next]_vars

E == hist'[Len(hist')]
H == Effective(E[2])
\* a call that succeeds touches no handler
Untouched == [][E[3] = "" => st' = st]_vars
\* a failure is delivered exactly once, and to the installed handler only
Once == [][E[3] # "" =>
             /\ st'.cn = st.cn + (IF H = "C" THEN 1 ELSE 0)
             /\ st'.gn = st.gn + (IF H = "G" THEN 1 ELSE 0)
             /\ st'.on = st.on + (IF H = "O" THEN 1 ELSE 0)
             /\ st'.xn = st.xn + (IF H = "X" THEN 1 ELSE 0)
             /\ (st'.r1 # st.r1) = (H = "R1")
             /\ (H = "R2" => st'.r2 = n + 1)
             /\ (H \notin {"R2", "X"} => st'.r2 = st.r2)]_vars
\* nothing is raised unless the handler raises, and nothing is lost without one
Silent == [][E[3] # "" => ((E[4] = Swallow) = (H \in {"I", "R1", "R2", "C", "X"}))]_vars
\* without a handler what is raised is the library's exception unless the user's own code threw
Library == [][LET picky == Calls[E[1]][Len(Calls[E[1]])] IN E[3] \in {"", "deser", "ser"} \/ (picky > 0 /\ E[3] = ForeignClass(picky))]_vars
Emit == n = Depth => PrintT(ToJson(hist))
=============================================================================
