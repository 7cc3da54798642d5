------------------------------ MODULE FaultIO ------------------------------
(* Parsing and dumping while memory, the source or the sink may fail.        *)
(*                                                                           *)
(* A source delivers the characters of a text and fails after k of them; a   *)
(* sink takes k units and then fails, for ever or once.  The reader meets    *)
(* the fault unless the document ended (at a NUL) or was found wrong before. *)
EXTENDS JsonReader, JsonWriter

Failed(r) == r[1] = "x"

(* ---- sources                                                              *)
\* has the reader finished with the document before it asks for character k+1?
Ended(text, k) == RRun(RInit, SubSeq(text, 1, k)).m = "E"
\* the outcomes of reading a source that fails after k characters: a set of values and REJECT
SourceOutcome(text, k) == IF Ended(text, k) THEN Read(text) ELSE REJECT
ReadResult(text) == IF Read(text) = REJECT THEN "fail" ELSE <<"v", Read(text)>>

(* ---- sinks, as a machine: the writer hands over one unit after another    *)
\* s = [got, failed, left]: units received, has a write failed, units still to write
SinkInit(text) == [got |-> <<>>, failed |-> FALSE, left |-> text]
SinkStep(s, k) ==
    IF s.left = <<>> \/ s.failed THEN s
    ELSE IF Len(s.got) >= k THEN [s EXCEPT !.failed = TRUE]
    ELSE [s EXCEPT !.got = Append(@, Head(s.left)), !.left = Tail(@)]
RECURSIVE SinkRun(_, _)
SinkRun(s, k) == LET n == SinkStep(s, k) IN IF n = s THEN s ELSE SinkRun(n, k)
SinkOutcome(text, k) == SinkRun(SinkInit(text), k)

(* ---- units of a character                                                 *)
UnitsOf(c, unit) == IF unit = "w" THEN 1 ELSE IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
ULen(text, unit) == FoldLeft(LAMBDA n, c : n + UnitsOf(c, unit), 0, text)
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* ---- memory: a parse or dump struck by a fault fails, or is what it is    *)
(* without the fault                                                         *)
MemoryFail == {"alloc", "deser", "ser", "stream"}
===========================================================================
