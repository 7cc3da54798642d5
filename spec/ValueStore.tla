----------------------------- MODULE ValueStore -----------------------------
(* A store of values (roots 1..n) and the operations of configor::value on   *)
(* them.  A location is <<root, path>>, a path a sequence of steps           *)
(* <<"i", index>> (0-based) or <<"k", key>>.                                 *)
(* Apply(st, op) = <<store after, result>>; results:                         *)
(*   <<"ok">>  <<"v", value>>  <<"n", number>>  <<"x", error class>>         *)
EXTENDS JsonValue

Ok     == <<"ok">>
Err(c) == <<"x", c>>
Val(v) == <<"v", v>>
Num(n) == <<"n", n>>

---------------------------------------------------------------------------
(* locations                                                                 *)
RECURSIVE GetP(_, _), SetP(_, _, _), PathsOf(_)
GetP(v, p) == IF p = <<>> THEN v
              ELSE LET s == Head(p)
                   IN IF s[1] = "i" THEN GetP(v[2][s[2] + 1], Tail(p))
                      ELSE GetP(MemberOf(v[2], s[2]), Tail(p))
SetP(v, p, x) ==
    IF p = <<>> THEN x
    ELSE LET s == Head(p)
         IN IF s[1] = "i" THEN VArr([v[2] EXCEPT ![s[2] + 1] = SetP(@, Tail(p), x)])
            ELSE VObj([v[2] EXCEPT ![KeyPos(v[2], s[2])] = <<s[2], SetP(@[2], Tail(p), x)>>])
PathsOf(v) ==
    {<<>>} \cup
    (CASE IsArr(v) -> UNION {{<<<<"i", i - 1>>>> \o p : p \in PathsOf(v[2][i])} : i \in 1..Len(v[2])}
       [] IsObj(v) -> UNION {{<<<<"k", v[2][i][1]>>>> \o p : p \in PathsOf(v[2][i][2])} : i \in 1..Len(v[2])}
       [] OTHER -> {})

Get(st, l)    == GetP(st[l[1]], l[2])
Put(st, l, x) == [st EXCEPT ![l[1]] = SetP(@, l[2], x)]
Locs(st)      == UNION {{<<r, p>> : p \in PathsOf(st[r])} : r \in 1..Len(st)}

\* a is b or contains b
Covers(a, b) == a[1] = b[1] /\ Len(a[2]) <= Len(b[2]) /\ SubSeq(b[2], 1, Len(a[2])) = a[2]
Within(a, b) == Covers(a, b) /\ a # b      \* b is a proper part of a
Apart(a, b)  == ~Covers(a, b) /\ ~Covers(b, a)

---------------------------------------------------------------------------
Size(v) == CASE IsNull(v) -> 0 [] IsArr(v) \/ IsObj(v) -> Len(v[2]) [] OTHER -> 1
EmptyV(v) == IsNull(v) \/ ((IsArr(v) \/ IsObj(v)) /\ v[2] = <<>>)
Cleared(v) == CASE IsInt(v) -> IZero [] IsFlt(v) -> FZero [] IsBool(v) -> VBool(0) [] IsStr(v) -> EmptyStr
                [] IsArr(v) -> EmptyArr [] IsObj(v) -> EmptyObj [] OTHER -> v
Fresh(t) == CASE t = 1 -> IZero [] t = 2 -> FZero [] t = 3 -> EmptyStr [] t = 4 -> EmptyArr [] t = 5 -> EmptyObj [] t = 6 -> VBool(0) [] OTHER -> VNull
MadeObject(s) == VObj(FoldLeft(LAMBDA m, i : ObjEmplace(m, s[2 * i - 1][2], s[2 * i], Ordered), <<>>, [i \in 1..(Len(s) \div 2) |-> i]))
B01(b) == IF b THEN 1 ELSE 0

Grown(a, i) == IF i < Len(a) THEN a ELSE a \o Rep(VNull, i + 1 - Len(a))

TagNo(v) == CASE IsNull(v) -> 0 [] IsInt(v) -> 1 [] IsFlt(v) -> 2 [] IsStr(v) -> 3 [] IsArr(v) -> 4 [] IsObj(v) -> 5 [] IsBool(v) -> 6

\* `op' = <<name, location, argument>>
Apply(st, op) ==
    LET n == op[1]
        l == op[2]
        x == Get(st, l)
        a == op[3]
    IN CASE
      \* ---- assignment, copies, moves, swaps; the argument is a location
         n = "cp" -> <<Put(st, l, Get(st, a)), Ok>>
      [] n = "mv" -> IF a = l THEN <<st, Ok>>
                     ELSE IF Within(l, a) THEN <<Put(st, l, Get(st, a)), Ok>>
                     ELSE <<Put(Put(st, a, VNull), l, Get(st, a)), Ok>>
      [] n = "sw" -> <<Put(Put(st, a, x), l, Get(st, a)), Ok>>
      \* ---- constructing a root anew (the old one is destroyed afterwards)
      [] n = "cc" -> <<[st EXCEPT ![l[1]] = Get(st, a)], Ok>>
      [] n = "mc" -> IF a[1] = l[1] THEN <<[st EXCEPT ![l[1]] = Get(st, a)], Ok>>
                     ELSE <<[Put(st, a, VNull) EXCEPT ![l[1]] = Get(st, a)], Ok>>
      \* ---- assignment of a literal value (built apart), of null
      [] n = "set" -> <<Put(st, l, a), Ok>>
      [] n = "nul" -> <<Put(st, l, VNull), Ok>>
      \* ---- a fresh value of a type; make_array and make_object (argument: an array key, value, key, value ..)
      [] n = "mt" -> <<Put(st, l, Fresh(a)), Ok>>
      [] n = "ma" -> <<Put(st, l, a), Ok>>
      [] n = "mo" -> <<Put(st, l, MadeObject(a[2])), Ok>>
      \* ---- non-const indexing; result: the designated element
      [] n = "ix" -> IF IsNull(x) \/ IsArr(x)
                     THEN LET g == Grown(IF IsNull(x) THEN <<>> ELSE x[2], a)
                          IN <<Put(st, l, VArr(g)), Val(g[a + 1])>>
                     ELSE <<st, Err("key")>>
      [] n \in {"ik", "iC"} ->
                     IF IsNull(x) \/ IsObj(x)
                     THEN LET m == ObjEmplace(IF IsNull(x) THEN <<>> ELSE x[2], a, VNull, Ordered)
                          IN <<Put(st, l, VObj(m)), Val(MemberOf(m, a))>>
                     ELSE <<st, Err("key")>>
      \* ---- const indexing and at()
      [] n \in {"ci", "ai"} -> <<st, IF ~IsArr(x) THEN Err("key") ELSE IF a >= Len(x[2]) THEN Err("range") ELSE Val(x[2][a + 1])>>
      [] n \in {"ck", "ak", "cC", "aC"} -> <<st, IF ~IsObj(x) THEN Err("key") ELSE IF ~HasKey(x[2], a) THEN Err("range") ELSE Val(MemberOf(x[2], a))>>
      \* ---- indices beyond what any array holds
      [] n = "hx" -> <<st, IF IsNull(x) \/ IsArr(x) THEN Err("long") ELSE Err("key")>>
      [] n \in {"hc", "ha"} -> <<st, IF IsArr(x) THEN Err("range") ELSE Err("key")>>
      \* ---- queries
      [] n = "sz" -> <<st, Num(Size(x))>>
      [] n = "em" -> <<st, Num(B01(EmptyV(x)))>>
      [] n = "ty" -> <<st, Num(TagNo(x))>>
      [] n = "ct" -> <<st, Num(B01(IsObj(x) /\ HasKey(x[2], a)))>>
      [] n \in {"fd", "fc"} -> <<st, IF IsObj(x) /\ HasKey(x[2], a) THEN Val(MemberOf(x[2], a)) ELSE Num(0)>>
      \* ---- updates
      [] n = "ek" -> IF ~IsObj(x) THEN <<st, Err("key")>> ELSE <<Put(st, l, VObj(ObjDel(x[2], a))), Num(B01(HasKey(x[2], a)))>>
      [] n = "ei" -> IF ~IsArr(x) THEN <<st, Err("key")>> ELSE <<Put(st, l, VArr(DelAt(x[2], a + 1))), Ok>>
      [] n \in {"pv", "eb"} -> IF IsNull(x) \/ IsArr(x) THEN <<Put(st, l, VArr(Append(IF IsNull(x) THEN <<>> ELSE x[2], a))), Ok>> ELSE <<st, Err("type")>>
      [] n = "pb" -> IF IsNull(x) \/ IsArr(x) THEN <<Put(st, l, VArr(Append(IF IsNull(x) THEN <<>> ELSE x[2], Get(st, a)))), Ok>> ELSE <<st, Err("type")>>
      [] n = "pm" -> IF IsNull(x) \/ IsArr(x)
                     THEN LET s == Put(st, a, VNull) y == Get(s, l)
                          IN <<Put(s, l, VArr(Append(IF IsNull(y) THEN <<>> ELSE y[2], Get(st, a)))), Ok>>
                     ELSE <<st, Err("type")>>
      [] n = "cl" -> <<Put(st, l, Cleared(x)), Ok>>

\* operations whose meaning is not defined and which are therefore not used:
\* moving or swapping a value into its own part, appending to a null itself or
\* what contains it, erasing an index that is not there
Defined(st, op) ==
    LET l == op[2] a == op[3]
    IN CASE op[1] = "mv" -> ~Within(a, l)
         [] op[1] = "sw" -> Apart(l, a) \/ a = l
         [] op[1] \in {"cc", "mc"} -> l[2] = <<>>
         [] op[1] = "pb" -> IsNull(Get(st, l)) => ~Covers(a, l)
         [] op[1] = "pm" -> ~Covers(a, l)
         [] op[1] = "ei" -> IsArr(Get(st, l)) => a < Len(Get(st, l)[2])
         [] OTHER -> TRUE

RECURSIVE Nodes(_)
Nodes(v) == 1 + (CASE IsArr(v) -> FoldLeft(LAMBDA s, x : s + Nodes(x), 0, v[2])
                   [] IsObj(v) -> FoldLeft(LAMBDA s, m : s + Nodes(m[2]), 0, v[2])
                   [] OTHER -> 0)
StoreNodes(st) == FoldLeft(LAMBDA s, x : s + Nodes(x), 0, st)

---------------------------------------------------------------------------
(* laws that every step obeys (checked by TLC on the model)                  *)
\* what an operation may write
Writes(op) == {op[2]} \cup (IF op[1] \in {"mv", "sw", "mc", "pm"} THEN {op[3]} ELSE {})
\* roots that an operation does not name stay as they are: independence
Independent(st, op, st2) == \A r \in 1..Len(st) : (\A w \in Writes(op) : w[1] # r) => st2[r] = st[r]
Failed(res) == res[1] = "x"
\* failing and reading operations change nothing
Unchanged(st, op, st2, res) ==
    (Failed(res) \/ op[1] \in {"ci", "ai", "ck", "ak", "cC", "aC", "sz", "em", "ty", "ct", "fd", "fc"}) => st2 = st
\* the destination of a copy or move holds what the source held
Transfer(st, op, st2) ==
    /\ op[1] \in {"cp", "mv"} => Get(st2, op[2]) = Get(st, op[3])
    /\ op[1] \in {"cc", "mc"} => st2[op[2][1]] = Get(st, op[3])
    /\ op[1] = "mv" /\ Apart(op[2], op[3]) => Get(st2, op[3]) = VNull
    /\ op[1] = "cp" /\ Apart(op[2], op[3]) => Get(st2, op[3]) = Get(st, op[3])
    /\ op[1] = "sw" => Apply(st2, op)[1] = st
\* no operation loses or invents nodes except as it says
Balance(st, op, st2) ==
    /\ op[1] = "sw" => StoreNodes(st2) = StoreNodes(st)
    /\ op[1] = "mv" /\ Apart(op[2], op[3]) => StoreNodes(st2) = StoreNodes(st) - Nodes(Get(st, op[2])) + 1
RECURSIVE WF(_)
WF(v) == CASE IsArr(v) -> \A i \in 1..Len(v[2]) : WF(v[2][i])
           [] IsObj(v) -> /\ \A i, j \in 1..Len(v[2]) : i < j => (IF Ordered THEN SeqLess(v[2][i][1], v[2][j][1]) ELSE v[2][i][1] # v[2][j][1])
                          /\ \A i \in 1..Len(v[2]) : WF(v[2][i][2])
           [] OTHER -> TRUE
Laws(st, op, st2, res) == /\ Independent(st, op, st2) /\ Unchanged(st, op, st2, res)
                          /\ Transfer(st, op, st2) /\ Balance(st, op, st2)
                          /\ \A r \in 1..Len(st2) : WF(st2[r])
=============================================================================
