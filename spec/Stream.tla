------------------------------- MODULE Stream -------------------------------
(* An output stream with its formatting state, and the insertions into it.   *)
(* st = [w, fill, prec, ff, fl, loc, ok, out, str, gl]                       *)
(*   ff: 0 general, 1 fixed, 2 scientific, 3 both                            *)
(*   fl: set of other flags; loc: 1 = a locale with ',' as decimal point and *)
(*   groups of three digits; out: what the sink received; str: a string that *)
(*   is dumped to; gl: the global locale                                     *)
(* Options of a dump: a sequence of <<"ind", step, ch>>, <<"esc", b>>,       *)
(* <<"prec", p, fmt>>.                                                       *)
EXTENDS JsonWriter

SInit == [w |-> 0, fill |-> 32, prec |-> 6, ff |-> 0, fl |-> {}, loc |-> 0, ok |-> TRUE, out |-> <<>>, str |-> <<>>, gl |-> 0]

\* what the formatting state of a stream means to a dump
Base(st) == [step |-> st.w, ch |-> st.fill, esc |-> 0, prec |-> st.prec, fmt |-> st.ff]
ApplyOpt(o, x) ==
    CASE x[1] = "ind"  -> [o EXCEPT !.step = x[2], !.ch = x[3]]
      [] x[1] = "esc"  -> [o EXCEPT !.esc = x[2]]
      [] x[1] = "prec" -> [o EXCEPT !.prec = x[2], !.fmt = x[3]]
Opts(o, xs) == FoldLeft(ApplyOpt, o, xs)

\* plain insertions
Padded(st, t) == LET n == IF st.w > Len(t) THEN st.w - Len(t) ELSE 0
                 IN IF "left" \in st.fl THEN t \o Rep(st.fill, n) ELSE Rep(st.fill, n) \o t
RECURSIVE Radix(_, _, _)
Radix(n, b, up) == LET d == n % b
                       c == IF d < 10 THEN 48 + d ELSE (IF up THEN 55 ELSE 87) + d
                   IN IF n < b THEN <<c>> ELSE Radix(n \div b, b, up) \o <<c>>
RECURSIVE Group(_)
Group(ds) == IF Len(ds) <= 3 THEN ds ELSE Group(SubSeq(ds, 1, Len(ds) - 3)) \o <<39>> \o SubSeq(ds, Len(ds) - 2, Len(ds))
\* a non-negative int
IntPlain(st, n) ==
    LET up  == "uppercase" \in st.fl
        b   == IF "hex" \in st.fl THEN 16 ELSE IF "oct" \in st.fl THEN 8 ELSE 10
        ds  == Radix(n, b, up)
        g   == IF st.loc = 1 THEN Group(ds) ELSE ds
        pre == IF b = 10 THEN (IF "showpos" \in st.fl THEN <<43>> ELSE <<>>)
               ELSE IF "showbase" \in st.fl /\ n > 0 THEN (IF b = 8 THEN <<48>> ELSE <<48, IF up THEN 88 ELSE 120>>)
               ELSE <<>>
    IN pre \o g

Put(st, t) == [st EXCEPT !.out = @ \o t, !.w = 0]

CanStep(st, op) == IF op[1] = "d" \/ (op[1] = "dx" /\ op[3] < 2) THEN st.ok ELSE TRUE
Step(st, op) ==
    CASE op[1] = "w"    -> [st EXCEPT !.w = op[2]]
      [] op[1] = "fi"   -> [st EXCEPT !.fill = op[2]]
      [] op[1] = "p"    -> [st EXCEPT !.prec = op[2]]
      [] op[1] = "ff"   -> [st EXCEPT !.ff = op[2]]
      [] op[1] = "fl"   -> [st EXCEPT !.fl = {op[2][i] : i \in 1..Len(op[2])}]
      [] op[1] = "loc"  -> [st EXCEPT !.loc = op[2]]
      [] op[1] = "gl"   -> [st EXCEPT !.gl = op[2]]
      [] op[1] = "fail" -> [st EXCEPT !.ok = FALSE]
      [] op[1] = "clear" -> [st EXCEPT !.ok = TRUE]
      \* json::dump(os, v, options)
      [] op[1] = "d"    -> Put(st, Layout(op[2], Opts(Base(st), op[3]), 0))
      \* a dump that fails at once (a number that is not finite): <<"dx", which, form, options>>
      [] op[1] = "dx"   -> IF st.ok THEN Put(st, <<>>) ELSE st
      \* os << json::wrap(v), and of a container that converts to v
      [] op[1] \in {"wr", "wt"} -> IF st.ok THEN Put(st, Layout(op[2], Base(st), 0)) ELSE st
      \* json::dump(str, v, options) appends; str += json::dump(v, options)
      [] op[1] \in {"ds", "dr"} -> [st EXCEPT !.str = @ \o Layout(op[2], Opts(DefaultOpt, op[3]), 0)]
      [] op[1] = "s"    -> IF st.ok THEN Put(st, Padded(st, op[2])) ELSE st
      [] op[1] = "i"    -> IF st.ok THEN Put(st, Padded(st, IntPlain(st, op[2]))) ELSE st

\* what the harness shows after each operation
Bit(st, f, n) == IF f \in st.fl THEN n ELSE 0
FlagNum(st) == Bit(st, "hex", 1) + Bit(st, "oct", 2) + Bit(st, "showpos", 4) + Bit(st, "uppercase", 8) + Bit(st, "showbase", 16)
               + Bit(st, "boolalpha", 32) + Bit(st, "left", 64) + Bit(st, "showpoint", 128) + Bit(st, "unitbuf", 256)
Shown(st) == <<st.w, st.fill, st.prec, st.ff, FlagNum(st), st.loc, IF st.ok THEN 1 ELSE 0, Len(st.out), Len(st.str)>>
=============================================================================
