----------------------------- MODULE JsonReader -----------------------------
(* The parser as a deterministic pushdown machine over code points.         *)
(*                                                                          *)
(* Symbols are code points; BAD stands for input that cannot be decoded.    *)
(* A state is a record                                                      *)
(*   m  mode: what the lexer is in the middle of                            *)
(*        ws   between tokens           st   in a string                    *)
(*        sl   after '/'                esc  after '\'                      *)
(*        lc   in a line comment        u    in the digits of \uXXXX        *)
(*        bc   in a block comment       lb   lead surrogate read, '\' next  *)
(*        bs   after '*' in it          lu   ... 'u' next                   *)
(*        lit  in true/false/null       sg z in fr0 fr ex0 es ex  number    *)
(*        E    input ended by NUL       X    rejected                       *)
(*   p  position: what the grammar expects next                             *)
(*        v  value    va value or ']'    ka key or '}'                      *)
(*        c  ':'      s  ',' or close    e  end of input                    *)
(*   k  stack of open containers <<"a", vals>> / <<"o", members, key>>      *)
(*   t  accumulated token                                                   *)
(*   n  small integers of the token                                         *)
(*   r  the value read so far at top level                                  *)
EXTENDS JsonValue

CONSTANT NumCfg   \* imax, imin: the largest magnitudes of integers; fmax * 10^femax: the first number
                  \* that does not round to a finite float; femin: everything below is zero

\* 64-bit integers, IEEE double
Cfg64 == [imax  |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>,
          imin  |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>,
          femax |-> 308, fmax |-> <<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,8,0,7,9,3,7,2,8,9,7,1,4,0,5,3>>, femin |-> -330]
\* 32-bit integers, IEEE single
Cfg32 == [imax  |-> <<2,1,4,7,4,8,3,6,4,7>>,
          imin  |-> <<2,1,4,7,4,8,3,6,4,8>>,
          femax |-> 38, fmax |-> <<3,4,0,2,8,2,3,5,6,7,7,9,7,3,3,6,6,1,6,3,7,5,3,9,3,9,5,4,5,8>>, femin |-> -50]

BAD == -1
REJECT == <<"reject">>

RInit == [m |-> "ws", p |-> "v", k |-> <<>>, t |-> <<>>, n |-> <<>>, r |-> VNull]
Dead == [RInit EXCEPT !.m = "X"]

IsWS(c)    == c \in {32, 9, 10, 13}
IsDigit(c) == c \in 48..57
HexVal(c)  == IF c \in 48..57 THEN c - 48
              ELSE IF c \in 65..70 THEN c - 55
              ELSE IF c \in 97..102 THEN c - 87 ELSE -1
IsLead(c)  == c \in 55296..56319
IsTrail(c) == c \in 56320..57343
IsScalar(c) == c \in 0..1114111 /\ c \notin 55296..57343

---------------------------------------------------------------------------
Deliver(st, v) ==  \* a complete value
    IF st.k = <<>> THEN [st EXCEPT !.m = "ws", !.p = "e", !.r = v, !.t = <<>>, !.n = <<>>]
    ELSE LET top == st.k[Len(st.k)]
             new == IF top[1] = "a" THEN <<"a", Append(top[2], v)>>
                    ELSE <<"o", ObjEmplace(top[2], top[3], v, Ordered), <<>>>>
         IN [st EXCEPT !.m = "ws", !.p = "s", !.t = <<>>, !.n = <<>>,
                       !.k = [st.k EXCEPT ![Len(st.k)] = new]]

Open(st, frame, p) == [st EXCEPT !.k = Append(st.k, frame), !.p = p]
Close(st) == LET top == st.k[Len(st.k)]
             IN Deliver([st EXCEPT !.k = SubSeq(st.k, 1, Len(st.k) - 1)], <<top[1], top[2]>>)
TopIs(st, x) == st.k # <<>> /\ st.k[Len(st.k)][1] = x

Literals == [true |-> <<114, 117, 101>>, false |-> <<97, 108, 115, 101>>, null |-> <<117, 108, 108>>]

Dispatch(st, c) ==  \* the next token starts with c
    LET val == st.p \in {"v", "va"}
    IN CASE IsWS(c)          -> st
         [] c = 47           -> [st EXCEPT !.m = "sl"]
         [] c = 0            -> IF st.p = "e" THEN [st EXCEPT !.m = "E"] ELSE Dead
         [] c = 91 /\ val    -> Open(st, <<"a", <<>>>>, "va")
         [] c = 123 /\ val   -> Open(st, <<"o", <<>>, <<>>>>, "ka")
         [] c = 93 /\ TopIs(st, "a") /\ st.p \in {"va", "s"}  -> Close(st)
         [] c = 125 /\ TopIs(st, "o") /\ st.p \in {"ka", "s"} -> Close(st)
         [] c = 44 /\ st.p = "s" -> [st EXCEPT !.p = IF TopIs(st, "a") THEN "va" ELSE "ka"]
         [] c = 58 /\ st.p = "c" -> [st EXCEPT !.p = "v"]
         [] c = 34 /\ (val \/ st.p = "ka") -> [st EXCEPT !.m = "st", !.t = <<>>]
         [] c = 116 /\ val   -> [st EXCEPT !.m = "lit", !.t = Literals.true,  !.n = <<1>>]
         [] c = 102 /\ val   -> [st EXCEPT !.m = "lit", !.t = Literals.false, !.n = <<2>>]
         [] c = 110 /\ val   -> [st EXCEPT !.m = "lit", !.t = Literals.null,  !.n = <<3>>]
         [] c \in {43, 45} /\ val ->
              [st EXCEPT !.m = "sg", !.t = <<<<>>, <<>>, <<>>>>, !.n = <<IF c = 45 THEN 1 ELSE 0, 0>>]
         [] c = 48 /\ val    ->
              [st EXCEPT !.m = "z", !.t = <<<<0>>, <<>>, <<>>>>, !.n = <<0, 0>>]
         [] c \in 49..57 /\ val ->
              [st EXCEPT !.m = "in", !.t = <<<<c - 48>>, <<>>, <<>>>>, !.n = <<0, 0>>]
         [] OTHER -> Dead

---------------------------------------------------------------------------
(* numbers: t = <<integral digits, fraction digits, exponent digits>>,      *)
(*          n = <<negative, exponent negative>>                             *)
ExpVal(ds) == FoldLeft(LAMBDA a, d : IF a > 99999 THEN a ELSE a * 10 + d, 0, ds)

NumIsFloat(st) == st.m \in {"fr", "ex"}
NumInt(st) ==
    LET d   == StripL(st.t[1])
        lim == IF st.n[1] = 1 THEN NumCfg.imin ELSE NumCfg.imax
    IN IF DigLess(lim, d) THEN REJECT ELSE VInt(MkInt(st.n[1] = 1, d))
NumFlt(st) ==
    LET f == MkFlt(st.n[1] = 1, st.t[1] \o st.t[2],
                   Len(st.t[1]) + (IF st.n[2] = 1 THEN -1 ELSE 1) * ExpVal(st.t[3]))
    IN IF f[1] = 0 THEN FZero
       ELSE IF FExp(f) > NumCfg.femax \/ (FExp(f) = NumCfg.femax /\ SeqLess(NumCfg.fmax, FDig(f))) THEN REJECT
       ELSE IF FExp(f) < NumCfg.femin THEN FZero
       ELSE VFlt(f)
NumModes == {"z", "in", "fr", "ex"}   \* a number may end here
NumEnd(st) == LET v == IF NumIsFloat(st) THEN NumFlt(st) ELSE NumInt(st)
              IN IF v = REJECT THEN Dead ELSE Deliver(st, v)

NumStep(st, c) ==
    LET dig(i, m) == [st EXCEPT !.m = m, !.t[i] = Append(st.t[i], c - 48)]
    IN CASE st.m = "sg" -> IF c = 48 THEN dig(1, "z") ELSE IF c \in 49..57 THEN dig(1, "in") ELSE Dead
         [] st.m = "z" /\ c = 46         -> [st EXCEPT !.m = "fr0"]
         [] st.m = "z" /\ c \in {69,101} -> Dead
         [] st.m = "in" /\ c = 46         -> [st EXCEPT !.m = "fr0"]
         [] st.m = "in" /\ c \in {69,101} -> [st EXCEPT !.m = "ex0"]
         [] st.m = "in" /\ IsDigit(c)     -> dig(1, "in")
         [] st.m = "fr0" -> IF IsDigit(c) THEN dig(2, "fr") ELSE Dead
         [] st.m = "fr" /\ c \in {69,101} -> [st EXCEPT !.m = "ex0"]
         [] st.m = "fr" /\ IsDigit(c)     -> dig(2, "fr")
         [] st.m = "ex0" -> IF c \in 49..57 THEN dig(3, "ex")
                            ELSE IF c \in {43, 45} THEN [st EXCEPT !.m = "es", !.n[2] = IF c = 45 THEN 1 ELSE 0]
                            ELSE Dead
         [] st.m = "es"  -> IF IsDigit(c) THEN dig(3, "ex") ELSE Dead
         [] st.m = "ex" /\ IsDigit(c)     -> dig(3, "ex")
         \* the character after the number starts the next token
         [] OTHER -> LET e == NumEnd(st) IN IF e.m = "X" THEN Dead ELSE Dispatch(e, c)

---------------------------------------------------------------------------
StrEnd(st) == IF st.p = "ka"
              THEN [st EXCEPT !.m = "ws", !.p = "c", !.t = <<>>,
                              !.k = [st.k EXCEPT ![Len(st.k)] = [@ EXCEPT ![3] = st.t]]]
              ELSE Deliver(st, VStr(st.t))
Put(st, c) == [st EXCEPT !.m = "st", !.t = Append(st.t, c), !.n = <<>>]

EscOf(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12
              [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1

StrStep(st, c) ==
    CASE st.m = "st"  -> IF c = 34 THEN StrEnd(st)
                         ELSE IF c = 92 THEN [st EXCEPT !.m = "esc"]
                         ELSE IF c < 32 THEN Dead
                         ELSE Put(st, c)
      [] st.m = "esc" -> IF c = 117 THEN [st EXCEPT !.m = "u", !.n = <<0, 0, 0>>]  \* lead, digits, value
                         ELSE IF EscOf(c) >= 0 THEN Put(st, EscOf(c))
                         ELSE Dead
      [] st.m = "u"   ->
           LET h == HexVal(c) lead == st.n[1] cnt == st.n[2] + 1 val == st.n[3] * 16 + h
           IN IF h < 0 THEN Dead
              ELSE IF cnt < 4 THEN [st EXCEPT !.n = <<lead, cnt, val>>]
              ELSE IF lead # 0 THEN
                   IF IsTrail(val) THEN Put(st, 65536 + (lead - 55296) * 1024 + (val - 56320)) ELSE Dead
              ELSE IF IsLead(val) THEN [st EXCEPT !.m = "lb", !.n = <<val>>]
              ELSE IF IsTrail(val) THEN Dead
              ELSE Put(st, val)
      [] st.m = "lb"  -> IF c = 92 THEN [st EXCEPT !.m = "lu"] ELSE Dead
      [] st.m = "lu"  -> IF c = 117 THEN [st EXCEPT !.m = "u", !.n = <<st.n[1], 0, 0>>] ELSE Dead

---------------------------------------------------------------------------
CommentStep(st, c) ==
    CASE st.m = "sl" -> IF c = 47 THEN [st EXCEPT !.m = "lc"]
                        ELSE IF c = 42 THEN [st EXCEPT !.m = "bc"] ELSE Dead
      [] st.m = "lc" -> IF c \in {10, 13} THEN [st EXCEPT !.m = "ws"]
                        ELSE IF c = 0 THEN (IF st.p = "e" THEN [st EXCEPT !.m = "E"] ELSE Dead)
                        ELSE st
      [] st.m = "bc" -> IF c = 42 THEN [st EXCEPT !.m = "bs"] ELSE IF c = 0 THEN Dead ELSE st
      [] st.m = "bs" -> IF c = 47 THEN [st EXCEPT !.m = "ws"]
                        ELSE IF c = 42 THEN st
                        ELSE IF c = 0 THEN Dead ELSE [st EXCEPT !.m = "bc"]

LitStep(st, c) ==
    IF c # Head(st.t) THEN Dead
    ELSE IF Len(st.t) > 1 THEN [st EXCEPT !.t = Tail(st.t)]
    ELSE Deliver(st, CASE st.n = <<1>> -> VBool(1) [] st.n = <<2>> -> VBool(0) [] OTHER -> VNull)

RStep(st, c) ==
    CASE st.m \in {"E", "X"} -> st
      [] c = BAD -> Dead
      [] st.m = "ws" -> Dispatch(st, c)
      [] st.m \in {"sl", "lc", "bc", "bs"} -> CommentStep(st, c)
      [] st.m = "lit" -> LitStep(st, c)
      [] st.m \in {"st", "esc", "u", "lb", "lu"} -> StrStep(st, c)
      [] OTHER -> NumStep(st, c)

RRun(st, text) == FoldLeft(RStep, st, text)

\* the verdict when the input ends here
REnd(st) ==
    CASE st.m = "X" -> REJECT
      [] st.m = "E" -> st.r
      [] st.m \in {"ws", "lc"} -> IF st.p = "e" THEN st.r ELSE REJECT
      [] st.m \in NumModes -> LET e == NumEnd(st) IN IF e.m # "X" /\ e.p = "e" THEN e.r ELSE REJECT
      [] OTHER -> REJECT

Read(text) == REnd(RRun(RInit, text))

RTypeOK(st) ==
    /\ st.m \in {"ws","sl","lc","bc","bs","lit","st","esc","u","lb","lu",
                 "sg","z","in","fr0","fr","ex0","es","ex","E","X"}
    /\ st.p \in {"v","va","ka","c","s","e"}
    /\ (st.p = "e" => st.k = <<>>) \/ st.m = "X"
    /\ (st.p = "va" => TopIs(st, "a"))
    /\ (st.p \in {"ka", "c"} => TopIs(st, "o"))
=============================================================================
