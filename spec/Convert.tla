------------------------------ MODULE Convert ------------------------------
(* Conversions between native C++ objects and values, over a language of     *)
(* type descriptors:                                                         *)
(*   <<"int">> <<"bool">> <<"flt">> <<"str">>  scalars                       *)
(*   <<"val">>            the value type itself                              *)
(*   <<"nd">>             an integer in a type without default constructor,  *)
(*                        bound through a specialised value_binder           *)
(*   <<"seq", T>>         vector, list, deque, forward_list                  *)
(*   <<"set", T>>         ordered set       <<"uset", T>> unordered set      *)
(*   <<"arr", n, T>>      std::array, T[n]                                   *)
(*   <<"map", T>>         string-keyed map  <<"umap", T>> unordered map      *)
(*   <<"ptr", T>>         owning pointer                                     *)
(*   <<"rec", fields>>    bound type, fields = <<name, required?, T>>        *)
(* Natives: scalars are values; sequences and sets are arrays of natives;    *)
(* maps are objects; pointers <<"n">> or <<"p", x>>; records <<"r", xs>>.    *)
EXTENDS JsonValue

ScalarTags == {"int", "bool", "flt", "str"}
Left == <<"any">>       \* content left unspecified (a target partly overwritten by a failed conversion)

RECURSIVE Default(_)
Default(T) ==
    CASE T[1] = "int"  -> IZero
      [] T[1] = "bool" -> VBool(0)
      [] T[1] = "flt"  -> FZero
      [] T[1] = "str"  -> EmptyStr
      [] T[1] = "val"  -> VNull
      [] T[1] = "nd"   -> IZero
      [] T[1] \in {"seq", "set", "uset"} -> EmptyArr
      [] T[1] = "arr"  -> VArr([i \in 1..T[2] |-> Default(T[3])])
      [] T[1] \in {"map", "umap"} -> EmptyObj
      [] T[1] = "ptr"  -> VNull
      [] T[1] = "rec"  -> <<"r", [i \in 1..Len(T[2]) |-> Default(T[2][i][3])]>>

(***************************************************************************)
(* native -> value                                                         *)
(***************************************************************************)
RECURSIVE To(_, _), ToFields(_, _, _, _)
To(T, x) ==
    CASE T[1] \in ScalarTags \cup {"val", "nd"} -> x
      [] T[1] \in {"seq", "set", "uset"} -> VArr([i \in 1..Len(x[2]) |-> To(T[2], x[2][i])])
      [] T[1] = "arr" -> VArr([i \in 1..Len(x[2]) |-> To(T[3], x[2][i])])
      \* an unordered map may list its members in any order, the object has its own
      [] T[1] \in {"map", "umap"} ->
             VObj(SortSeq([i \in 1..Len(x[2]) |-> <<x[2][i][1], To(T[2], x[2][i][2])>>], LAMBDA a, b : SeqLess(a[1], b[1])))
      [] T[1] = "ptr" -> IF x[1] = "n" THEN VNull ELSE To(T[2], x[2])
      [] T[1] = "rec" -> ToFields(T[2], x[2], 1, VNull)
\* required fields always, optional ones unless they have their default; without any there is no object
ToFields(fs, xs, i, acc) ==
    IF i > Len(fs) THEN acc
    ELSE IF ~fs[i][2] /\ xs[i] = Default(fs[i][3]) THEN ToFields(fs, xs, i + 1, acc)
    ELSE ToFields(fs, xs, i + 1, VObj(ObjPut(IF IsNull(acc) THEN <<>> ELSE acc[2], fs[i][1], To(fs[i][3], xs[i]), Ordered)))

(***************************************************************************)
(* value -> native: <<1, native>>, <<0, what the target holds>> after a     *)
(* failure, or <<2>> where no behaviour is promised (an empty object read   *)
(* as a sequence, an empty array read as a map, a zero-length target)                             *)
(***************************************************************************)
Fail(x) == <<0, x>>
Fits(T, v) == \/ T[1] \in {"int", "nd"} /\ IsInt(v)
              \/ T[1] = "bool" /\ IsBool(v)
              \/ T[1] = "flt" /\ IsFlt(v)
              \/ T[1] = "str" /\ IsStr(v)

SortedUnique(xs) ==
    LET first(i) == \A j \in 1..(i - 1) : ~VEq(xs[i], xs[j])
        u == SelectSeq([i \in 1..Len(xs) |-> <<xs[i], first(i)>>], LAMBDA p : p[2])
    IN SortSeq([i \in 1..Len(u) |-> u[i][1]], LAMBDA a, b : VLess(a, b))

RECURSIVE From(_, _, _), FromFields(_, _, _, _, _)
All(T, vs) == [i \in 1..Len(vs) |-> From(T, vs[i], Default(T))]
Outcome(rs) == IF \E i \in 1..Len(rs) : rs[i][1] = 2 THEN 2 ELSE IF \E i \in 1..Len(rs) : rs[i][1] = 0 THEN 0 ELSE 1
From(T, v, prior) ==
    CASE T[1] \in ScalarTags \cup {"nd"} -> IF Fits(T, v) THEN <<1, v>> ELSE Fail(prior)
      [] T[1] = "val" -> <<1, v>>
      [] T[1] \in {"seq", "set", "uset"} ->
            IF IsNull(v) THEN <<1, EmptyArr>>
            ELSE IF v = EmptyObj THEN <<2>>
            ELSE IF ~IsArr(v) THEN Fail(Left)
            ELSE LET rs == All(T[2], v[2]) o == Outcome(rs)
                 IN IF o = 2 THEN <<2>> ELSE IF o = 0 THEN Fail(Left)
                    ELSE LET xs == [i \in 1..Len(rs) |-> rs[i][2]]
                         IN <<1, VArr(IF T[1] = "seq" THEN xs ELSE SortedUnique(xs))>>
      [] T[1] = "arr" ->
            IF IsNull(v) THEN <<1, prior>>
            ELSE IF v = EmptyObj \/ (T[2] = 0 /\ ~IsArr(v)) THEN <<2>>
            ELSE IF ~IsArr(v) THEN Fail(Left)
            ELSE LET n == Min2(T[2], Len(v[2]))
                     rs == All(T[3], Take(v[2], n)) o == Outcome(rs)
                 IN IF o = 2 THEN <<2>> ELSE IF o = 0 THEN Fail(Left)
                    ELSE <<1, VArr([i \in 1..T[2] |-> IF i <= n THEN rs[i][2] ELSE prior[2][i]])>>
      [] T[1] \in {"map", "umap"} ->
            IF IsNull(v) THEN <<1, EmptyObj>>
            ELSE IF v = EmptyArr THEN <<2>>
            ELSE IF ~IsObj(v) THEN Fail(Left)
            ELSE LET rs == All(T[2], [i \in 1..Len(v[2]) |-> v[2][i][2]]) o == Outcome(rs)
                 IN IF o = 2 THEN <<2>> ELSE IF o = 0 THEN Fail(Left)
                    ELSE <<1, VObj([i \in 1..Len(rs) |-> <<v[2][i][1], rs[i][2]>>])>>
      [] T[1] = "ptr" ->
            IF IsNull(v) THEN <<1, VNull>>
            ELSE LET r == From(T[2], v, Default(T[2]))
                 IN IF r[1] = 1 THEN <<1, <<"p", r[2]>>>> ELSE IF r[1] = 0 THEN Fail(prior) ELSE <<2>>
      [] T[1] = "rec" -> FromFields(T[2], v, prior[2], 1, <<>>)
\* fields in the order they are declared; a field present but unconvertible keeps its content
FromFields(fs, v, prior, i, acc) ==
    IF i > Len(fs) THEN <<1, <<"r", acc>>>>
    ELSE LET f == fs[i] IN
         IF ~IsObj(v) \/ ~HasKey(v[2], f[1]) THEN
             IF f[2] THEN Fail(Left) ELSE FromFields(fs, v, prior, i + 1, Append(acc, prior[i]))
         ELSE LET r == From(f[3], MemberOf(v[2], f[1]), prior[i])
              IN IF r[1] = 2 THEN <<2>> ELSE FromFields(fs, v, prior, i + 1, Append(acc, r[2]))

(***************************************************************************)
(* comparison with what was observed                                        *)
(***************************************************************************)
RECURSIVE Same(_, _, _)
\* x specified, y observed
Same(T, x, y) ==
    IF x = Left THEN TRUE
    ELSE CASE T[1] \in {"seq", "set", "arr"} ->
                  LET E == T[Len(T)]
                  IN Len(x[2]) = Len(y[2]) /\ \A i \in 1..Len(x[2]) : Same(E, x[2][i], y[2][i])
           [] T[1] = "uset" -> Len(x[2]) = Len(y[2]) /\ ToSet(x[2]) = ToSet(y[2])
           [] T[1] \in {"map", "umap"} ->
                  Len(x[2]) = Len(y[2]) /\ \A i \in 1..Len(x[2]) :
                      HasKey(y[2], x[2][i][1]) /\ Same(T[2], x[2][i][2], MemberOf(y[2], x[2][i][1]))
           [] T[1] = "ptr" -> IF x[1] = "n" THEN y[1] = "n" ELSE y[1] = "p" /\ Same(T[2], x[2], y[2])
           [] T[1] = "rec" -> \A i \in 1..Len(T[2]) : Same(T[2][i][3], x[2][i], y[2][i])
           [] OTHER -> x = y

(***************************************************************************)
(* laws                                                                     *)
(***************************************************************************)
RECURSIVE Faithful(_)
\* null denotes both a null pointer and null content, and a record without content is no object
Faithful(T) == CASE T[1] \in {"seq", "set", "uset", "map", "umap"} -> Faithful(T[2])
                 [] T[1] = "arr" -> Faithful(T[3])
                 [] T[1] = "ptr" -> Faithful(T[2]) /\ T[2][1] \notin {"ptr", "val"} /\ (T[2][1] = "rec" => \E i \in 1..Len(T[2][2]) : T[2][2][i][2])
                 [] T[1] = "rec" -> \A i \in 1..Len(T[2]) : Faithful(T[2][i][3])
                 [] OTHER -> TRUE
RECURSIVE HasOpt(_), Resets(_)
HasOpt(T) == CASE T[1] = "rec" -> \E i \in 1..Len(T[2]) : ~T[2][i][2] \/ HasOpt(T[2][i][3])
               [] T[1] = "arr" -> HasOpt(T[3])
               [] OTHER -> FALSE
Resets(T) == ~HasOpt(T)
\* there and back again, whatever the target held (an optional field that is left out keeps what the target has)
RoundTrip(T, x, prior) ==
    Faithful(T) => LET r == From(T, To(T, x), IF Resets(T) THEN prior ELSE Default(T)) IN r[1] = 1 /\ Same(T, x, r[2])
=============================================================================
