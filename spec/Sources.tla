------------------------------ MODULE Sources ------------------------------
(* Reading documents from a source.  A source is the characters that are     *)
(* left in it (code points, BAD for what cannot be decoded); neither its     *)
(* kind nor the encoding of its characters shows.  A stream goes on after    *)
(* the NUL that ended the last document; a text starts anew with every call. *)
(*   st = [kind, rest, lost, fail, skip, v, t]                               *)
(*   kind: "text"; "stream"; "endless": a stream whose end is NULs for ever  *)
(*   lost: a failed read leaves the position unspecified                     *)
(*   fail: the stream's own fail state; skip: its skipws flag                *)
(*   v: a value variable, t: a variable of the native type T                 *)
EXTENDS JsonReader, Convert

SrcInit(kind, text, v, t) == [kind |-> kind, rest |-> text, lost |-> FALSE, fail |-> FALSE, skip |-> TRUE, v |-> v, t |-> t]

IsSpace(c) == c \in {9, 10, 11, 12, 13, 32}
RECURSIVE SkipWs(_)
SkipWs(s) == IF s # <<>> /\ IsSpace(Head(s)) THEN SkipWs(Tail(s)) ELSE s

\* what is left after the document at the start of s: everything after the NUL that ends it
RECURSIVE After(_, _)
After(st, s) == IF st.m = "E" \/ s = <<>> THEN s ELSE After(RStep(st, Head(s)), Tail(s))
Remaining(s) == After(RInit, s)

\* an integer beyond int's range somewhere (its conversion to int is C++'s, not the library's)
RECURSIVE Wide(_)
Wide(v) == CASE IsInt(v) -> Len(v[2]) > 10
             [] IsArr(v) -> \E i \in 1..Len(v[2]) : Wide(v[2][i])
             [] IsObj(v) -> \E i \in 1..Len(v[2]) : Wide(v[2][i][2])
             [] OTHER -> FALSE

Advance(st, s) == IF st.kind = "text" THEN st ELSE [st EXCEPT !.rest = Remaining(s)]
Lose(st)       == IF st.kind = "text" THEN st ELSE [st EXCEPT !.lost = TRUE]

Can(st, op) ==
    IF st.kind = "text" THEN op[1] \in {"pa", "pr"}
    ELSE IF op[1] \in {"cl", "ns"} THEN TRUE
    ELSE IF st.fail THEN op[1] \in {"ex", "et"}
    ELSE IF st.lost THEN FALSE
    ELSE IF op[1] = "g" THEN Len(st.rest) >= op[2] /\ (\A i \in 1..op[2] : st.rest[i] # BAD) /\ op[2] > 0
    ELSE IF op[1] = "pk" THEN st.rest # <<>> /\ st.rest[1] # BAD
    ELSE IF op[1] = "rs" THEN st.kind = "stream" /\ \A i \in 1..Len(st.rest) : st.rest[i] # BAD
    ELSE TRUE

\* the result and the state afterwards
R(res, st) == [res |-> res, st |-> st]
Step(T, st, op) ==
    CASE op[1] = "g"  -> R(<<"g">>, [st EXCEPT !.rest = SubSeq(@, op[2] + 1, Len(@))])
      [] op[1] = "pk" -> R(<<"g">>, st)
      [] op[1] = "ns" -> R(<<"g">>, [st EXCEPT !.skip = FALSE])
      [] op[1] = "cl" -> R(<<"g">>, [st EXCEPT !.fail = FALSE])
      [] op[1] = "rs" -> R(<<"r", st.rest>>, Lose(st))
      \* parse(variable, source) and variable = parse(source)
      [] op[1] \in {"pa", "pr"} ->
            LET r == Read(st.rest)
            IN IF r = REJECT THEN R(<<"x", "deser">>, [Lose(st) EXCEPT !.v = IF op[1] = "pa" THEN Left ELSE @])
               ELSE R(<<"v">>, [Advance(st, st.rest) EXCEPT !.v = r])
      \* stream >> wrap(value variable), stream >> wrap(native variable)
      [] op[1] \in {"ex", "et"} ->
            LET s == IF st.skip THEN SkipWs(st.rest) ELSE st.rest
            IN IF st.fail \/ (st.skip /\ s = <<>> /\ st.kind # "endless") THEN R(<<"none">>, [st EXCEPT !.fail = TRUE, !.rest = IF st.fail THEN @ ELSE s])
               ELSE LET r == Read(s)
                    IN IF r = REJECT THEN R(<<"x", "deser">>, [Lose(st) EXCEPT !.v = IF op[1] = "ex" THEN Left ELSE @])
                       ELSE IF op[1] = "ex" THEN R(<<"v">>, [Advance(st, s) EXCEPT !.v = r])
                       ELSE IF Wide(r) THEN R(<<"x", "free">>, st)
                       ELSE LET c == From(T, r, Default(T))
                            IN IF c[1] = 1 THEN R(<<"v">>, [Advance(st, s) EXCEPT !.t = c[2]])
                               ELSE R(IF c[1] = 0 THEN <<"x", "conv">> ELSE <<"x", "free">>, Advance(st, s))

Shown(res, st) == <<res, st.v, st.t>>
=============================================================================
