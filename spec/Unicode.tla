------------------------------ MODULE Unicode ------------------------------
(* UTF-8, UTF-16 and UTF-32 as machines over code units (enc = 8, 16, 32),   *)
(* after the tables of the Unicode standard.  A unit that does not fit the   *)
(* code (negative or too large) is simply ill-formed.                        *)
EXTENDS Integers, Sequences

Scalar(c) == c \in 0..1114111 /\ c \notin 55296..57343

ILLFORMED == <<-1>>

\* encoders: the units of a code point, or ILLFORMED
Encode(enc, c) ==
    IF ~Scalar(c) THEN ILLFORMED
    ELSE CASE enc = 8  -> IF c < 128 THEN <<c>>
                          ELSE IF c < 2048  THEN <<192 + c \div 64, 128 + (c % 64)>>
                          ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
                          ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           [] enc = 16 -> IF c < 65536 THEN <<c>>
                          ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
           [] enc = 32 -> <<c>>

\* decoder state: [m, acc, need, lo, hi]; m = "start" | "mid" | "bad"
\* lo..hi is the range of the next trail unit (table 3-7)
DStart == [m |-> "start", acc |-> 0, need |-> 0, lo |-> 0, hi |-> 0]
DBad   == [DStart EXCEPT !.m = "bad"]
DMid(acc, need, lo, hi) == [m |-> "mid", acc |-> acc, need |-> need, lo |-> lo, hi |-> hi]

\* one unit: <<state, the code point completed or -1>>
DStep(enc, d, u) ==
    IF d.m = "bad" THEN <<d, -1>>
    ELSE IF d.m = "start" THEN
        CASE enc = 8 ->
               (CASE u \in 0..127   -> <<DStart, u>>
                  [] u \in 194..223 -> <<DMid(u - 192, 1, 128, 191), -1>>
                  [] u = 224        -> <<DMid(0, 2, 160, 191), -1>>
                  [] u \in (225..239) \ {237} -> <<DMid(u - 224, 2, 128, 191), -1>>
                  [] u = 237        -> <<DMid(13, 2, 128, 159), -1>>
                  [] u = 240        -> <<DMid(0, 3, 144, 191), -1>>
                  [] u \in 241..243 -> <<DMid(u - 240, 3, 128, 191), -1>>
                  [] u = 244        -> <<DMid(4, 3, 128, 143), -1>>
                  [] OTHER          -> <<DBad, -1>>)
          [] enc = 16 ->
               (CASE u \in 55296..56319 -> <<DMid(u - 55296, 1, 56320, 57343), -1>>
                  [] u \in 0..65535 /\ u \notin 56320..57343 -> <<DStart, u>>
                  [] OTHER -> <<DBad, -1>>)
          [] enc = 32 -> IF Scalar(u) THEN <<DStart, u>> ELSE <<DBad, -1>>
    ELSE IF u \notin d.lo..d.hi THEN <<DBad, -1>>
    ELSE IF enc = 16 THEN <<DStart, 65536 + d.acc * 1024 + (u - 56320)>>
    ELSE LET a == d.acc * 64 + (u - 128)
         IN IF d.need = 1 THEN <<DStart, a>> ELSE <<DMid(a, d.need - 1, 128, 191), -1>>

\* decoding a whole sequence: <<code points before the end or the fault, ok>>
RECURSIVE DecodeFrom(_, _, _, _)
DecodeFrom(enc, us, d, out) ==
    IF us = <<>> THEN <<out, IF d.m = "start" THEN 1 ELSE 0>>
    ELSE LET s == DStep(enc, d, Head(us))
         IN IF s[1].m = "bad" THEN <<out, 0>>
            ELSE DecodeFrom(enc, Tail(us), s[1], IF s[2] >= 0 THEN Append(out, s[2]) ELSE out)
Decode(enc, us) == DecodeFrom(enc, us, DStart, <<>>)
=============================================================================
