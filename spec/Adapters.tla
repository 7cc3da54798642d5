------------------------------ MODULE Adapters ------------------------------
(* Streams over a user-supplied input or output adapter.                     *)
(* An input adapter supplies the characters of `src' and then NUL for ever;  *)
(* the state of its stream is the number of characters taken so far (what    *)
(* has been peeked is not taken).  An operation yields                       *)
(*      <<characters obtained, count reported, failed>>                      *)
(* and a new position.  An output adapter receives a sequence of characters. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

At(src, p) == IF p < Len(src) THEN src[p + 1] ELSE 0
Chunk(src, p, n) == [i \in 1..n |-> At(src, p + i - 1)]
Blank(c) == c \in {9, 10, 11, 12, 13, 32}

\* distance from p to the next d, or -1
RECURSIVE DistF(_, _, _, _)
DistF(src, p, d, i) == IF At(src, p + i) = d THEN i
                       ELSE IF p + i >= Len(src) THEN -1 ELSE DistF(src, p, d, i + 1)
Dist(src, p, d) == DistF(src, p, d, 0)
RECURSIVE SkipF(_, _)
SkipF(src, p) == IF Blank(At(src, p)) THEN SkipF(src, p + 1) ELSE p

\* op = <<name, n, delimiter>>
NeedsDelim == {"gs"}              \* runs until the delimiter comes
Enabled(src, p, op) == op[1] \in NeedsDelim => Dist(src, p, op[3]) >= 0

DoIn(src, p, op) ==
    LET n == op[2]
        d == op[3]
        k == Dist(src, p, d)
    IN CASE op[1] \in {"bump", "get", "getc", "it1"} -> <<<<<<At(src, p)>>, 1, 0>>, p + 1>>
         [] op[1] \in {"peek", "sgetc"} -> <<<<<<At(src, p)>>, 0, 0>>, p>>
         [] op[1] = "snext" -> <<<<<<At(src, p + 1)>>, 0, 0>>, p + 1>>
         [] op[1] \in {"read", "sgetn", "it"} -> <<<<Chunk(src, p, n), n, 0>>, p + n>>
         [] op[1] = "ign" -> <<<<<<>>, n, 0>>, p + n>>
         [] op[1] = "ignd" -> LET m == IF k >= 0 /\ k < n THEN k + 1 ELSE n IN <<<<<<>>, m, 0>>, p + m>>
         \* getline(buffer of n, d): the delimiter is taken but not stored; a full buffer is a failure
         [] op[1] = "gl" -> IF k >= 0 /\ k <= n - 1 THEN <<<<Chunk(src, p, k), k + 1, 0>>, p + k + 1>>
                            ELSE <<<<Chunk(src, p, n - 1), n - 1, 1>>, p + n - 1>>
         \* get(buffer of n, d): stops before the delimiter; nothing stored is a failure
         [] op[1] = "gb" -> LET m == IF k >= 0 /\ k <= n - 1 THEN k ELSE n - 1
                            IN <<<<Chunk(src, p, m), m, IF m = 0 THEN 1 ELSE 0>>, p + m>>
         \* std::getline into a string
         [] op[1] = "gs" -> <<<<Chunk(src, p, k), k + 1, 0>>, p + k + 1>>
         \* >> char, skipping white space
         [] op[1] = "ws" -> LET q == SkipF(src, p) IN <<<<<<At(src, q)>>, 1, 0>>, q + 1>>

\* the characters taken by an operation are exactly those between the positions
Takes(op) == op[1] \in {"bump", "get", "getc", "it1", "read", "sgetn", "it", "gb"}
InLaws(src, p, op) ==
    LET r == DoIn(src, p, op)
    IN /\ r[2] >= p
       /\ Takes(op) => r[1][1] = Chunk(src, p, r[2] - p) /\ (r[1][3] = 0 => r[1][2] = r[2] - p)
       /\ op[1] \in {"ign", "ignd", "gl", "gs"} => r[1][2] = r[2] - p
       /\ op[1] \in {"peek", "sgetc"} => r[2] = p

RECURSIVE RunIn(_, _, _, _)
RunIn(src, p, ops, acc) ==
    IF ops = <<>> THEN acc
    ELSE LET r == DoIn(src, p, Head(ops)) IN RunIn(src, r[2], Tail(ops), Append(acc, r[1]))

\* output: op = <<name, characters>>
OutOps == {"put", "write", "sputc", "sputn", "ins", "insc", "oit", "flush"}
DoOut(op) == IF op[1] = "flush" THEN <<>> ELSE op[2]
RunOut(ops) == FoldLeft(LAMBDA a, op : a \o DoOut(op), <<>>, ops)
=============================================================================
