----------------------------- MODULE MC_Convert -----------------------------
(* Enumerates, for each named type, natives and sources.                     *)
EXTENDS Convert, Json
CONSTANTS Types,      \* sequence of <<name, descriptor>>
          Big         \* depth of the enumeration: 0 or 1
VARIABLES c

A == 97 B == 98 E9 == 233
RECURSIVE Nat_(_, _)
\* sample natives; `k' limits the number of samples per element type
Scal(T) == CASE T[1] \in {"int", "nd"} -> <<VInt(<<1, 5>>), VInt(<<-1, 7>>), IZero>>
             [] T[1] = "bool" -> <<VBool(1), VBool(0)>>
             [] T[1] = "flt"  -> <<VFlt(<<1, 0, 2, 5>>), FZero, VFlt(<<-1, 1, 3>>)>>
             [] T[1] = "str"  -> <<VStr(<<A>>), EmptyStr, VStr(<<E9, B>>)>>
             [] T[1] = "val"  -> <<VInt(<<1, 1>>), VArr(<<VNull>>), VObj(<<<<<<A>>, VBool(1)>>>>), VNull>>
First(s, n) == {s[i] : i \in 1..Min2(n, Len(s))}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Nat_(T, k) ==
    CASE T[1] \in ScalarTags \cup {"val", "nd"} -> First(Scal(T), k)
      [] T[1] = "seq" -> {VArr(s) : s \in Seqs(Nat_(T[2], 2), k - 1)}
      [] T[1] \in {"set", "uset"} -> {VArr(SortedUnique(s)) : s \in Seqs(Nat_(T[2], 3), k)}
      [] T[1] = "arr" -> {VArr(s) : s \in [1..T[2] -> Nat_(T[3], 2)]}
      [] T[1] \in {"map", "umap"} ->
            LET S == Nat_(T[2], 2)
            IN {EmptyObj} \cup {VObj(<<<<<<>>, x>>>>) : x \in S}
               \cup {VObj(<<<<<<A>>, x>>, <<<<E9>>, y>>>>) : x \in S, y \in S}
      [] T[1] = "ptr" -> {VNull} \cup {<<"p", x>> : x \in Nat_(T[2], k)}
      [] T[1] = "rec" ->
            LET n == Len(T[2])
                D == [i \in 1..n |-> Default(T[2][i][3])]
                S == [i \in 1..n |-> CHOOSE x \in Nat_(T[2][i][3], 2) : x # Default(T[2][i][3])]
            IN {<<"r", D>>, <<"r", S>>}
               \cup IF k <= 2 THEN {} ELSE
               UNION {{<<"r", [D EXCEPT ![i] = x]>> : x \in Nat_(T[2][i][3], k)} : i \in 1..n}
               \cup UNION {{<<"r", [S EXCEPT ![i] = x]>> : x \in Nat_(T[2][i][3], k)} : i \in 1..n}
Natives(T) == Nat_(T, 3)

Shapes == {VNull, VBool(1), VInt(<<1, 3>>), VFlt(<<1, 0, 1, 5>>), VStr(<<A>>), VStr(<<>>), EmptyArr, VArr(<<VNull>>),
           VArr(<<VInt(<<1, 1>>), VStr(<<B>>)>>), EmptyObj, VObj(<<<<<<A>>, VInt(<<1, 1>>)>>>>)}
RECURSIVE Src(_, _)
Src(T, k) ==
    IF k = 0 THEN {To(T, x) : x \in Nat_(T, 2)} \cup {VNull, VStr(<<B>>)}
    ELSE Shapes \cup {To(T, x) : x \in Nat_(T, 2)} \cup
         (CASE T[1] \in {"seq", "set", "uset"} -> {VArr(s) : s \in Seqs(Src(T[2], 0), 2)}
            [] T[1] = "arr" -> {VArr(s) : s \in Seqs({To(T[3], x) : x \in Nat_(T[3], 2)} \cup {VStr(<<B>>), VNull}, Min2(3, T[2] + 1))}
            [] T[1] \in {"map", "umap"} -> {VObj(<<<<<<A>>, x>>, <<<<B>>, y>>>>) : x \in Src(T[2], 0), y \in Src(T[2], 0)}
            [] T[1] = "ptr" -> Src(T[2], k)
            [] T[1] = "rec" ->
                  LET n == Len(T[2])
                      full == To(T, <<"r", [i \in 1..n |-> CHOOSE x \in Nat_(T[2][i][3], 2) : x # Default(T[2][i][3])]>>)
                  IN {full, VObj(ObjPut(full[2], <<122, 122>>, VInt(<<1, 1>>), Ordered))}
                     \cup {VObj(ObjDel(full[2], T[2][i][1])) : i \in 1..n}
                     \cup UNION {{VObj(ObjPut(full[2], T[2][i][1], x, Ordered)) : x \in Src(T[2][i][3], Min2(k - 1, 1))} : i \in 1..n}
                     \cup {VObj(<<m>>) : m \in ToSet(full[2])}
            [] OTHER -> Shapes \cup {VInt(<<1, 1, 2, 1, 4, 7>>)})
Sources(T) == Src(T, 2)
Priors(T) == {Default(T)} \cup LET S == Nat_(T, 2) \ {Default(T)} IN IF S = {} THEN {} ELSE {CHOOSE x \in S : TRUE}

Init == c \in UNION {LET T == Types[i][2] IN
                  {<<"to", i, x>> : x \in Natives(T)} \cup {<<"from", i, v, p>> : v \in Sources(T), p \in Priors(T)} : i \in 1..Len(Types)}
Result == LET T == Types[c[2]][2]
          IN IF c[1] = "to" THEN To(T, c[3]) ELSE From(T, c[3], c[4])
Law == LET T == Types[c[2]][2]
       IN IF c[1] = "to" THEN \A p \in Priors(T) : RoundTrip(T, c[3], p)
          ELSE LET r == From(T, c[3], c[4])
               IN \* what converts into an object holding p converts into a fresh one
                  (r[1] = 1) = (From(T, c[3], Default(T))[1] = 1)
Next == /\ c[1] # "done"
        /\ Assert(Law, <<"law broken", c, Result>>)
        /\ PrintT(ToJson(<<c, Result>>))
        /\ c' = <<"done", c>>
Spec == Init /\ [][Next]_c
=============================================================================
