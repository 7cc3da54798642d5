------------------------------ MODULE MC_Calls ------------------------------
(* Interleavings of calls at the grain of characters.  Every process makes   *)
(* one call: reading a text (<<"r", text>>) or writing a value (<<"w", v>>). *)
(* Machines are private to the calls; with Scratch = TRUE the readers share  *)
(* their token buffer, which must break the property (the model's own test). *)
(* Nested = TRUE: one thread; a call may begin inside another and then runs  *)
(* to its end first.                                                         *)
EXTENDS JsonReader, JsonWriter, Json
CONSTANTS Jobs,          \* set of sequences of calls
          Scratch, Nested
VARIABLES jobs, pos, mach, stack, sched
vars == <<jobs, pos, mach, stack, sched>>
N == Len(jobs)
\* a call begins, then takes or gives character by character; a reader asks for the end, too
Steps(j) == IF j[1] = "r" THEN Len(j[2]) + 2 ELSE Len(Layout(j[2], DefaultOpt, 0)) + 1
Fresh(j) == IF j[1] = "r" THEN RInit ELSE <<>>
Init == /\ jobs \in Jobs
        /\ pos = [p \in 1..N |-> 0]
        /\ mach = [p \in 1..N |-> Fresh(jobs[p])]
        /\ stack = <<>>
        /\ sched = <<>>
Finished(p) == pos[p] = Steps(jobs[p])
Moved(j, m, i) == IF i = 1 THEN m
                  ELSE IF j[1] = "w" THEN Append(m, Layout(j[2], DefaultOpt, 0)[i - 1])
                  ELSE IF i - 1 > Len(j[2]) THEN m ELSE RStep(m, j[2][i - 1])
Top == stack[Len(stack)]
MayRun(p) == IF ~Nested THEN TRUE
             ELSE IF stack # <<>> THEN Top = p \/ pos[p] = 0
             ELSE pos[p] = 0
Step(p) ==
    /\ ~Finished(p)
    /\ MayRun(p) = TRUE
    /\ pos' = [pos EXCEPT ![p] = @ + 1]
    /\ LET m == Moved(jobs[p], mach[p], pos[p] + 1)
       IN mach' = IF Scratch /\ jobs[p][1] = "r" THEN [q \in 1..N |-> IF q = p THEN m ELSE IF jobs[q][1] = "r" THEN [mach[q] EXCEPT !.t = m.t] ELSE mach[q]]
                  ELSE [mach EXCEPT ![p] = m]
    /\ stack' = LET s == IF stack # <<>> /\ Top = p THEN stack ELSE Append(stack, p)
                IN IF ~Nested THEN <<>> ELSE IF pos[p] + 1 = Steps(jobs[p]) THEN SubSeq(s, 1, Len(s) - 1) ELSE s
    /\ sched' = Append(sched, p - 1)
    /\ UNCHANGED jobs
Next == \E p \in 1..N : Step(p)
Spec == Init /\ [][Next]_vars

Done == \A p \in 1..N : Finished(p)
\* what a call has done is a function of its arguments and its own progress
RECURSIVE Alone(_, _)
Alone(j, i) == IF i = 0 THEN Fresh(j) ELSE Moved(j, Alone(j, i - 1), i)
Isolated == \A p \in 1..N : mach[p] = Alone(jobs[p], pos[p])
Answer(p) == IF jobs[p][1] = "w" THEN <<"t", mach[p]>> ELSE <<"v", REnd(mach[p])>>
Results == Done => \A p \in 1..N : Answer(p) = (IF jobs[p][1] = "w" THEN Write(jobs[p][2], DefaultOpt) ELSE <<"v", Read(jobs[p][2])>>)
Emit == Done => PrintT(ToJson(<<jobs, sched>>))
=============================================================================
