----------------------------- MODULE JsonWriter -----------------------------
(* dump as (1) a declarative layout of a value and (2) a token machine that  *)
(* emits the text piece by piece.  MC_Writer checks that both agree and that *)
(* the reader reads back the rounded value.                                  *)
(*                                                                           *)
(* Options: [step, ch, esc, prec, fmt]                                       *)
(*   step 0: compact; fmt 0 general, 1 fixed, 2 scientific, 3 both (=general)*)
EXTENDS JsonValue

SERFAIL == <<"fail">>      \* dump raises a serialization error

DefaultOpt == [step |-> 0, ch |-> 32, esc |-> 0, prec |-> 6, fmt |-> 0]

---------------------------------------------------------------------------
(* numbers                                                                   *)
Digs(ds) == [i \in 1..Len(ds) |-> 48 + ds[i]]
Sign(d)  == IF d[1] = -1 THEN <<45>> ELSE <<>>
Zeros(n) == IF n <= 0 THEN <<>> ELSE Rep(0, n)

IntText(d) == Sign(d) \o Digs(Tail(d))

\* digits as a number, plus one; may get one digit longer
RECURSIVE Incr(_)
Incr(ds) == IF ds = <<>> THEN <<1>>
            ELSE IF ds[Len(ds)] = 9 THEN Append(Incr(SubSeq(ds, 1, Len(ds) - 1)), 0)
            ELSE [ds EXCEPT ![Len(ds)] = @ + 1]

\* round the digit sequence to its first n digits (n >= 0), ties to even:
\* the result has n digits, or n + 1 after a carry out
RoundTo(ds, n) ==
    IF Len(ds) <= n THEN ds \o Zeros(n - Len(ds))
    ELSE LET keep == SubSeq(ds, 1, n)
             next == ds[n + 1]
             rest == \E i \in (n + 2)..Len(ds) : ds[i] # 0
             odd  == n > 0 /\ keep[n] % 2 = 1
             up   == next > 5 \/ (next = 5 /\ (rest \/ odd))
         IN IF up THEN Incr(keep) ELSE keep

\* f = <<sgn, e, digits>> rounded to P >= 1 significant digits:
\* <<exponent, P digits>>
RoundSig(f, P) == LET r == RoundTo(FDig(f), P)
                  IN IF Len(r) > P THEN <<FExp(f) + 1, SubSeq(r, 1, P)>> ELSE <<FExp(f), r>>

\* rounded to p >= 0 decimals: the digits of the whole number f * 10^p
\* without leading zeros (empty for zero)
RoundDec(f, p) ==
    LET n == FExp(f) + 1 + p     \* significant digits that are kept
    IN IF n < 0 THEN <<>>
       ELSE StripL(RoundTo(FDig(f), n))

TwoDig(n) == IF n < 10 THEN <<48, 48 + n>>
             ELSE IF n < 100 THEN <<48 + n \div 10, 48 + (n % 10)>>
             ELSE <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
ExpText(e) == <<101>> \o (IF e < 0 THEN <<45>> ELSE <<43>>) \o TwoDig(IF e < 0 THEN -e ELSE e)

FixedText(whole, p) ==  \* whole = digits of the number * 10^p
    LET w == IF Len(whole) <= p THEN Zeros(p + 1 - Len(whole)) \o whole ELSE whole
        k == Len(w) - p
    IN Digs(SubSeq(w, 1, k)) \o (IF p > 0 THEN <<46>> \o Digs(SubSeq(w, k + 1, Len(w))) ELSE <<>>)

SciText(ds, e) == Digs(SubSeq(ds, 1, 1))
                  \o (IF Len(ds) > 1 THEN <<46>> \o Digs(SubSeq(ds, 2, Len(ds))) ELSE <<>>) \o ExpText(e)

\* the general notation of printf
GeneralText(f, prec) ==
    LET P == Max2(prec, 1)
        r == RoundSig(f, P)
        X == r[1]
    IN IF X >= -4 /\ X < P
       THEN LET ds == r[2]
                all == IF X >= 0 THEN ds ELSE Zeros(-X) \o ds     \* digits from the units on
                ip  == IF X >= 0 THEN X + 1 ELSE 1
                fr  == StripR(SubSeq(all, ip + 1, Len(all)))
            IN Digs(SubSeq(all, 1, ip)) \o (IF fr = <<>> THEN <<>> ELSE <<46>> \o Digs(fr))
       ELSE LET d == StripR(r[2]) IN SciText(d, X)

FIntegral(f) == f[1] = 0 \/ Len(FDig(f)) <= FExp(f) + 1
\* |f| < 2^63 (the negative end -2^63 itself included)
Two63 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
FSmall(f) == f[1] = 0 \/ FExp(f) < 18 \/ (FExp(f) = 18 /\ SeqLess(FDig(f), Two63))
             \/ (f[1] = -1 /\ FExp(f) = 18 /\ FDig(f) = Two63)

FltBody(f, o) ==
    LET mag == CASE o.fmt = 1 -> FixedText(RoundDec(f, o.prec), o.prec)
                 [] o.fmt = 2 -> LET r == RoundSig(f, o.prec + 1) IN SciText(r[2], r[1])
                 [] OTHER     -> GeneralText(f, o.prec)
    IN Sign(f) \o mag \o
       \* a float stays a float
       (IF \E i \in 1..Len(mag) : mag[i] \in {46, 101} THEN <<>> ELSE <<46, 48>>)

NonFinite(f) == f[1] \in {9, 8, -8}
FltText(f, o) ==
    IF f[1] = 0 THEN <<48, 46, 48>>
    ELSE IF FIntegral(f) /\ FSmall(f)
    THEN Sign(f) \o Digs(FDig(f) \o Zeros(FExp(f) + 1 - Len(FDig(f)))) \o <<46, 48>>
    ELSE FltBody(f, o)

\* the number that the text of a float denotes
RoundFlt(f, o) ==
    IF f[1] = 0 \/ (FIntegral(f) /\ FSmall(f)) THEN f
    ELSE CASE o.fmt = 1 -> LET w == RoundDec(f, o.prec) IN MkFlt(f[1] = -1, w, Len(w) - o.prec)
           [] OTHER -> LET r == RoundSig(f, IF o.fmt = 2 THEN o.prec + 1 ELSE Max2(o.prec, 1))
                       IN MkFlt(f[1] = -1, r[2], r[1] + 1)

---------------------------------------------------------------------------
(* strings                                                                   *)
HexDig(n) == IF n < 10 THEN 48 + n ELSE 55 + n
UEsc(u) == <<92, 117, HexDig(u \div 4096), HexDig((u \div 256) % 16), HexDig((u \div 16) % 16), HexDig(u % 16)>>

CharText(c, esc) ==
    CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>>
      [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>>
      [] c < 32 -> UEsc(c)
      [] c >= 127 /\ c <= 65535 /\ esc = 1 -> UEsc(c)
      [] c > 65535 /\ esc = 1 -> UEsc(55296 + (c - 65536) \div 1024) \o UEsc(56320 + ((c - 65536) % 1024))
      [] OTHER -> <<c>>

StrText(s, esc) == <<34>> \o FoldLeft(LAMBDA a, c : a \o CharText(c, esc), <<>>, s) \o <<34>>

\* strings hold scalar values; anything else cannot be written
BadCp(c) == c < 0 \/ c > 1114111 \/ c \in 55296..57343
BadStr(s) == \E i \in 1..Len(s) : BadCp(s[i])
RECURSIVE Unwritable(_)
Unwritable(v) ==
    CASE IsFlt(v) -> NonFinite(v[2])
      [] IsStr(v) -> BadStr(v[2])
      [] IsArr(v) -> \E i \in 1..Len(v[2]) : Unwritable(v[2][i])
      [] IsObj(v) -> \E i \in 1..Len(v[2]) : BadStr(v[2][i][1]) \/ Unwritable(v[2][i][2])
      [] OTHER    -> FALSE

---------------------------------------------------------------------------
(* (1) layout                                                                *)
NL(o)       == IF o.step > 0 THEN <<10>> ELSE <<>>
Ind(o, d)   == IF o.step > 0 THEN Rep(o.ch, o.step * d) ELSE <<>>
Colon(o)    == IF o.step > 0 THEN <<58, o.ch>> ELSE <<58>>

ScalarText(v, o) ==
    CASE IsNull(v) -> <<110, 117, 108, 108>>
      [] IsBool(v) -> IF v[2] = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
      [] IsInt(v)  -> IntText(v[2])
      [] IsFlt(v)  -> FltText(v[2], o)
      [] IsStr(v)  -> StrText(v[2], o.esc)

RECURSIVE Layout(_, _, _)
Layout(v, o, d) ==
    IF IsArr(v) THEN
        <<91>> \o NL(o)
        \o FoldLeft(LAMBDA a, i : a \o Ind(o, d + 1) \o Layout(v[2][i], o, d + 1)
                                  \o (IF i < Len(v[2]) THEN <<44>> \o NL(o) ELSE NL(o)),
                    <<>>, [i \in 1..Len(v[2]) |-> i])
        \o Ind(o, d) \o <<93>>
    ELSE IF IsObj(v) THEN
        <<123>> \o NL(o)
        \o FoldLeft(LAMBDA a, i : a \o Ind(o, d + 1) \o StrText(v[2][i][1], o.esc) \o Colon(o)
                                  \o Layout(v[2][i][2], o, d + 1)
                                  \o (IF i < Len(v[2]) THEN <<44>> \o NL(o) ELSE NL(o)),
                    <<>>, [i \in 1..Len(v[2]) |-> i])
        \o Ind(o, d) \o <<125>>
    ELSE ScalarText(v, o)

\* an empty container: "[" NL indent "]" when indenting
Write(v, o) == IF Unwritable(v) THEN SERFAIL ELSE <<"t", Layout(v, o, 0)>>

---------------------------------------------------------------------------
(* (2) the token machine                                                     *)
(* state: out, depth, began (the last token opened a container), after ':'   *)
Tok(v, o) == \* token list of a value: <<"open", c>>, <<"close", c>>, <<"lit", text>>, <<"colon">>, <<"comma">>
    LET RECURSIVE T(_)
        T(x) == IF IsArr(x) THEN
                    <<<<"open", 91>>>>
                    \o FoldLeft(LAMBDA a, i : a \o (IF i > 1 THEN <<<<"comma", 44>>>> ELSE <<>>) \o T(x[2][i]), <<>>, [i \in 1..Len(x[2]) |-> i])
                    \o <<<<"close", 93>>>>
                ELSE IF IsObj(x) THEN
                    <<<<"open", 123>>>>
                    \o FoldLeft(LAMBDA a, i : a \o (IF i > 1 THEN <<<<"comma", 44>>>> ELSE <<>>)
                                              \o <<<<"lit", StrText(x[2][i][1], o.esc)>>, <<"colon", 58>>>> \o T(x[2][i][2]),
                                <<>>, [i \in 1..Len(x[2]) |-> i])
                    \o <<<<"close", 125>>>>
                ELSE <<<<"lit", ScalarText(x, o)>>>>
    IN T(v)

WInit == [out |-> <<>>, d |-> 0, began |-> FALSE, colon |-> FALSE]
WStep(st, tok, o) ==
    LET elem == tok[1] \in {"open", "lit"}
        pre  == (IF elem /\ st.began THEN NL(o) ELSE <<>>)
                \o (IF elem /\ ~st.colon THEN Ind(o, st.d) ELSE <<>>)
    IN CASE tok[1] = "open"  -> [out |-> st.out \o pre \o <<tok[2]>>, d |-> st.d + 1, began |-> TRUE, colon |-> FALSE]
         [] tok[1] = "close" -> [out |-> st.out \o NL(o) \o Ind(o, st.d - 1) \o <<tok[2]>>, d |-> st.d - 1, began |-> FALSE, colon |-> FALSE]
         [] tok[1] = "lit"   -> [st EXCEPT !.out = @ \o pre \o tok[2], !.began = FALSE, !.colon = FALSE]
         [] tok[1] = "colon" -> [st EXCEPT !.out = @ \o Colon(o), !.colon = TRUE, !.began = FALSE]
         [] tok[1] = "comma" -> [st EXCEPT !.out = @ \o <<44>> \o NL(o), !.began = FALSE, !.colon = FALSE]

---------------------------------------------------------------------------
(* what dump followed by parse gives: the same value, floats rounded         *)
RECURSIVE Rounded(_, _)
Rounded(v, o) ==
    CASE IsFlt(v) -> VFlt(RoundFlt(v[2], o))
      [] IsArr(v) -> VArr([i \in 1..Len(v[2]) |-> Rounded(v[2][i], o)])
      [] IsObj(v) -> VObj([i \in 1..Len(v[2]) |-> <<v[2][i][1], Rounded(v[2][i][2], o)>>])
      [] OTHER    -> v
=============================================================================
