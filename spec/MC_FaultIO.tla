----------------------------- MODULE MC_FaultIO -----------------------------
(* Every text with every fault position: the reader takes the characters one *)
(* by one and ends, dies or meets the fault. Every written text with every   *)
(* capacity of the sink.                                                     *)
EXTENDS FaultIO, Json, TLC
CONSTANTS Texts, Values, Opts
VARIABLES mode, x, k, i, s
vars == <<mode, x, k, i, s>>
Init == \/ mode = "source" /\ x \in Texts /\ k \in 0..Len(x) /\ i = 0 /\ s = RInit
        \/ mode = "sink" /\ \E v \in Values, o \in Opts : ~Unwritable(v) /\ x = Layout(v, o, 0) /\ k \in 0..Len(x) /\ i = 0 /\ s = SinkInit(x)
Reading == mode = "source" /\ s.m \notin {"E", "X"}
Next == /\ UNCHANGED <<mode, x, k>>
        /\ \/ Reading /\ i < k /\ i' = i + 1 /\ s' = RRun(s, <<x[i + 1]>>)
           \/ mode = "sink" /\ UNCHANGED i /\ s # SinkStep(s, k) /\ s' = SinkStep(s, k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Struck == mode = "source" /\ Reading /\ i = k      \* the reader asks for the character that cannot be had
\* a fault that was met is reported; success means the whole text
Reported == mode = "sink" /\ s.left = <<>> /\ ~s.failed => s.got = x
Prefix   == mode = "sink" => IsPre(s.got, x) /\ Len(s.got) <= k
Exact    == mode = "sink" /\ s = SinkStep(s, k) => s.failed = (k < Len(x))
Stops    == <>(IF mode = "sink" THEN s = SinkStep(s, k) ELSE ~Reading \/ Struck)
\* success in spite of a fault: the fault was not met, and the result is the one without it
SourceLaw == mode = "source" /\ (Struck \/ ~Reading) => SourceOutcome(x, k) = (IF s.m = "E" THEN Read(x) ELSE REJECT)
\* a document that reads completely before a fault reads so whatever comes later
Monotone  == mode = "source" /\ Ended(x, k) => \A j \in k..Len(x) : Ended(x, j) /\ Read(SubSeq(x, 1, j)) = Read(x)
\* without a NUL the end of the source must be seen, so that every fault is met
MustEnd   == mode = "source" /\ (\A j \in 1..Len(x) : x[j] # 0) => SourceOutcome(x, k) = REJECT
=============================================================================
