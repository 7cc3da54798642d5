------------------------------ MODULE Handlers ------------------------------
(* Parses and dumps with error handlers.  A call is                          *)
(*   <<"p", text, picky>>  or  <<"d", value, step, limit, picky>>            *)
(* text: code points, BAD where the source cannot be read; limit: characters *)
(* the sink takes (-1: all); picky > 0: an encoding of the user's that       *)
(* throws at U+E000: 1 a std::exception of its own, 2 something that is no   *)
(* std::exception, 3 bad_alloc.                                              *)
(* hs, the handlers named by the call's options (the last one counts):       *)
(*   N none  S strict  I ignore  R1 R2 record  C counts  G counts and        *)
(*   rethrows  O throws something else  X makes another failing parse, with  *)
(*   handler R2                                                              *)
(* State: what the handlers hold. A message is named by the number of the    *)
(* call it belongs to: i = what the exception of call i says, 0 = nothing,   *)
(* NEST = what the exception of X's own parse says.                          *)
EXTENDS JsonReader, JsonWriter

NEST == -1
FOREIGN == 57344

HInit == [r1 |-> 0, r2 |-> 0, cn |-> 0, cm |-> 0, gn |-> 0, gm |-> 0, on |-> 0, xn |-> 0]
Effective(hs) == IF hs = <<>> THEN "N" ELSE hs[Len(hs)]

(* the classes of exceptions a call may fail with; {} if it succeeds         *)
FirstAt(s, c) == IF \E i \in 1..Len(s) : s[i] = c THEN CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c ELSE 0
ForeignClass(picky) == <<"std", "other", "alloc">>[picky]
ParseFails(text, picky) ==
    LET p  == IF picky > 0 THEN FirstAt(text, FOREIGN) ELSE 0
        st == RRun(RInit, SubSeq(text, 1, p - 1))
    IN IF p = 0 \/ st.m = "E" THEN (IF Read(text) = REJECT THEN {"deser"} ELSE {})
       ELSE IF st.m = "X" THEN {"deser", ForeignClass(picky)}     \* the reader may look one character ahead
       ELSE {ForeignClass(picky)}

RECURSIVE HasForeign(_)
HasForeign(v) == CASE IsStr(v) -> FirstAt(v[2], FOREIGN) > 0
                   [] IsArr(v) -> \E i \in 1..Len(v[2]) : HasForeign(v[2][i])
                   [] IsObj(v) -> \E i \in 1..Len(v[2]) : FirstAt(v[2][i][1], FOREIGN) > 0 \/ HasForeign(v[2][i][2])
                   [] OTHER -> FALSE
DumpOpt(step) == [DefaultOpt EXCEPT !.step = step]
DumpFails(v, step, limit, picky) ==
    LET f == picky > 0 /\ HasForeign(v)
        u == Unwritable(v)
    IN IF f THEN (IF u \/ limit >= 0 THEN {ForeignClass(picky), "ser"} ELSE {ForeignClass(picky)})
       ELSE IF u \/ (limit >= 0 /\ Len(Layout(v, DumpOpt(step), 0)) > limit) THEN {"ser"} ELSE {}

Fails(c) == IF c[1] = "p" THEN ParseFails(c[2], c[3]) ELSE DumpFails(c[2], c[3], c[4], c[5])
\* what a call that succeeds returns
Result(c) == IF c[1] = "p" THEN <<"v", Read(c[2])>> ELSE <<"t", Layout(c[2], DumpOpt(c[3]), 0)>>

Raise(cls, i) == <<"x", cls, i>>
Swallow       == <<"s">>        \* nothing is raised; the result is unspecified
Free          == <<"free">>     \* an exception that is none of the library's and a record handler

(* handler h receives the exception of call i: what it holds then, and what  *)
(* the call does                                                             *)
Deliver2(st, h, i, cls) ==
    CASE h \in {"N", "S"} -> <<st, Raise(cls, i)>>
      [] h = "I"  -> <<st, Swallow>>
      [] h = "R1" -> <<[st EXCEPT !.r1 = IF cls \notin {"deser", "ser"} THEN @ ELSE i], IF cls \notin {"deser", "ser"} THEN Free ELSE Swallow>>
      [] h = "R2" -> <<[st EXCEPT !.r2 = IF cls \notin {"deser", "ser"} THEN @ ELSE i], IF cls \notin {"deser", "ser"} THEN Free ELSE Swallow>>
      [] h = "C"  -> <<[st EXCEPT !.cn = @ + 1, !.cm = i], Swallow>>
      [] h = "G"  -> <<[st EXCEPT !.gn = @ + 1, !.gm = i], Raise(cls, i)>>
      [] h = "O"  -> <<[st EXCEPT !.on = @ + 1], <<"own">>>>
      [] h = "X"  -> <<[st EXCEPT !.xn = @ + 1, !.r2 = NEST], Swallow>>

\* call i of a history
HStep(st, c, hs, i, cls) == IF cls = "" THEN <<st, Result(c)>> ELSE Deliver2(st, Effective(hs), i, cls)
HShown(st) == <<st.r1, st.r2, st.cn, st.cm, st.gn, st.gm, st.on, st.xn>>
=============================================================================
