------------------------------- MODULE Access -------------------------------
(* Typed reads of a value.                                                   *)
(* Kinds: "b" bool, "i" integer, "d" float, "s" string, "a" array, "o"        *)
(* object, "v" the value type itself.                                        *)
(* Forms: get    by value          cref/ref  reference    ptr/cptr  pointer   *)
(*        try    into a variable   tptr      pointer into a variable          *)
(*        imp    implicit conversion                                          *)
(*        wref/wptr  write through the reference/pointer                      *)
(* Result: <<outcome, value afterwards, variable afterwards>>                 *)
EXTENDS JsonValue

Kinds == {"b", "i", "d", "s", "a", "o"}
ByValue == {"get", "imp"}
ByRef   == {"ref", "cref", "nref", "wref"}
ByPtr   == {"ptr", "cptr", "gptr", "gcptr", "nptr", "tptr", "wptr"}
Forms   == ByValue \cup ByRef \cup ByPtr \cup {"try"}

Matches(v, k)  == Tag(v) = k
\* null reads as an empty array or object when read by value
Readable(v, k) == k = "v" \/ Matches(v, k) \/ (IsNull(v) /\ k \in {"a", "o"})
Content(v, k)  == IF k # "v" /\ IsNull(v) THEN (IF k = "a" THEN EmptyArr ELSE EmptyObj) ELSE v
Plain == {"get", "imp", "try"}    \* forms for the value type itself

\* x: the value written, or what the variable held before
Read(v, form, k, x) ==
    CASE form \in ByValue -> IF Readable(v, k) THEN <<<<"v", Content(v, k)>>, v>> ELSE <<<<"x", "type">>, v>>
      [] form = "try"     -> IF Readable(v, k) THEN <<<<"t", 1, Content(v, k)>>, v>> ELSE <<<<"t", 0, x>>, v>>
      [] form \in {"wref", "wptr"} -> IF Matches(v, k) THEN <<<<"ok">>, x>>
                                      ELSE IF form = "wref" THEN <<<<"x", "type">>, v>> ELSE <<<<"null">>, v>>
      [] form \in ByRef   -> IF Matches(v, k) THEN <<<<"v", v>>, v>> ELSE <<<<"x", "type">>, v>>
      [] form \in ByPtr   -> IF Matches(v, k) THEN <<<<"v", v>>, v>> ELSE <<<<"null">>, v>>

\* reading never changes the value; writing only when the type matches
ReadLaws(v, form, k, x) ==
    LET r == Read(v, form, k, x)
    IN /\ form \notin {"wref", "wptr"} => r[2] = v
       /\ Tag(r[2]) = Tag(v)
       \* reading by value succeeds whenever reading by reference does
       /\ (k # "v" /\ Read(v, "ref", k, x)[1] = <<"v", v>>) => Read(v, "get", k, x)[1] = <<"v", v>>
       \* exactly one kind has references to a value that is not null
       /\ IsNull(v) \/ Cardinality({q \in Kinds : Matches(v, q)}) = 1
=============================================================================
