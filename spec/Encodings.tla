------------------------------ MODULE Encodings ------------------------------
(* Which encoding a call uses.  A JSON type has a default encoding; a call    *)
(* applies a sequence of settings to it, each for the text, for the strings   *)
(* of the value, or for both.  The last setting of a side is the one in       *)
(* effect: characters are read with the one and written with the other, and   *)
(* nothing else depends on them.                                              *)
(*   8, 16, 32 = UTF-8 …, 0 = "ignore": every unit is the character of the    *)
(*   same number, 1 = an encoding of the caller's own: the unit u is the      *)
(*   character u - 1 and 0 is none, -1 = by the width of the unit             *)
EXTENDS JsonReader, JsonWriter, Unicode

EOpt == [step |-> 0, ch |-> 32, esc |-> 0, prec |-> 6, fmt |-> 0]

\* an encoding over units of w bytes
Fits(e, w) == e \in {-1, 0, 1, 8} \/ (e = 16 /\ w >= 2) \/ (e = 32 /\ w >= 4)
Real(e, w) == IF e = -1 THEN 8 * w ELSE e
MaxUnit(w) == IF w = 1 THEN 255 ELSE IF w = 2 THEN 65535 ELSE 2147483647

OwnDec(us) ==
    LET z == {i \in 1..Len(us) : us[i] = 0}
        n == IF z = {} THEN Len(us) ELSE (CHOOSE i \in z : \A j \in z : i <= j) - 1
    IN <<[i \in 1..n |-> us[i] - 1], IF z = {} THEN 1 ELSE 0>>
DecU(e, w, us) == LET r == Real(e, w) IN IF r = 0 THEN <<us, 1>> ELSE IF r = 1 THEN OwnDec(us) ELSE Decode(r, us)
LOST == <<-2>>     \* a character that the unit cannot hold: nothing is promised
EncU(e, w, c) ==
    LET r == Real(e, w) IN IF r = 0 THEN (IF c \in 0..MaxUnit(w) THEN <<c>> ELSE LOST)
                             ELSE IF r = 1 THEN (IF c \in 0..(MaxUnit(w) - 1) THEN <<c + 1>> ELSE ILLFORMED) ELSE Encode(r, c)
EncS(e, w, cs) ==
    LET one(a, c) == LET u == EncU(e, w, c)
                     IN IF a \in {ILLFORMED, LOST} THEN a ELSE IF u \in {ILLFORMED, LOST} THEN u ELSE a \o u
    IN FoldLeft(one, <<>>, cs)

\* settings: <<side, encoding>>, side = "s" (read with), "t" (write with), "b" (both)
Apply(c, x) == IF x[1] = "b" THEN <<x[2], x[2]>> ELSE IF x[1] = "s" THEN <<x[2], c[2]>> ELSE <<c[1], x[2]>>
Effect(def, sel) == FoldLeft(Apply, <<def, def>>, sel)
\* rw, ww = widths of the units read and written
Allowed(x, rw, ww) == (x[1] \in {"s", "b"} => Fits(x[2], rw)) /\ (x[1] \in {"t", "b"} => Fits(x[2], ww))

\* the strings of a value replaced by a function
RECURSIVE MapStr(_, _)
MapStr(v, f) ==
    IF IsArr(v) THEN VArr([i \in 1..Len(v[2]) |-> MapStr(v[2][i], f)])
    ELSE IF IsObj(v) THEN VObj([i \in 1..Len(v[2]) |-> <<f[v[2][i][1]], MapStr(v[2][i][2], f)>>])
    ELSE IF IsStr(v) THEN VStr(f[v[2]]) ELSE v
RECURSIVE AllStr(_)
AllStr(v) ==
    IF IsArr(v) THEN UNION {AllStr(v[2][i]) : i \in 1..Len(v[2])}
    ELSE IF IsObj(v) THEN UNION {{v[2][i][1]} \cup AllStr(v[2][i][2]) : i \in 1..Len(v[2])}
    ELSE IF IsStr(v) THEN {v[2]} ELSE {}

\* plain text as units of an encoding
PlainIn(e, t) == IF e = 1 THEN [i \in 1..Len(t) |-> t[i] + 1] ELSE t

UNSPEC == <<"any">>

\* the units written for a value whose strings are units of width vw, into units of width tw
DumpWith(v, c, vw, tw, o) ==
    LET dec(s) == DecU(c[1], vw, s)[1]
        ss == AllStr(v)
        cs == UNION {{dec(s)[i] : i \in 1..Len(dec(s))} : s \in ss}
    IN IF \E s \in ss : DecU(c[1], vw, s)[2] = 0 THEN SERFAIL
       ELSE IF o.esc = 1 /\ (\E x \in cs : x > 1114111) THEN UNSPEC
       ELSE LET t == EncS(c[2], tw, Layout(MapStr(v, [x \in ss |-> dec(x)]), o, 0))
            IN IF t = LOST THEN UNSPEC ELSE IF t = ILLFORMED THEN SERFAIL ELSE <<"t", t>>

\* the value read from units of width tw, its strings in units of width vw
ParseWith(us, c, tw, vw) ==
    LET d == DecU(c[1], tw, us)
        v == Read(IF d[2] = 1 THEN d[1] ELSE Append(d[1], BAD))
        enc(s) == EncS(c[2], vw, s)
    IN IF v = REJECT THEN REJECT
       ELSE IF \E s \in AllStr(v) : enc(s) = ILLFORMED THEN (IF \E s \in AllStr(v) : enc(s) = LOST THEN UNSPEC ELSE REJECT)
       ELSE IF \E s \in AllStr(v) : enc(s) = LOST THEN UNSPEC
       ELSE MapStr(v, [x \in AllStr(v) |-> enc(x)])
=============================================================================
