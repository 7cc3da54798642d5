------------------------------ MODULE Iterators ------------------------------
(* Iterators of values as positions.  State: <<vals, regs, dir>>; vals are    *)
(* values, regs iterators <<index of the value (0: empty iterator), position  *)
(* 0..Size>>, dir "f" (begin..end) or "r" (rbegin..rend).                      *)
EXTENDS JsonValue

Ok     == <<"ok">>
Err(c) == <<"x", c>>
Val(v) == <<"v", v>>
Num(n) == <<"n", n>>
B01(b) == IF b THEN 1 ELSE 0

Multi(v) == IsArr(v) \/ IsObj(v)
Size(v)  == IF IsNull(v) THEN 0 ELSE IF Multi(v) THEN Len(v[2]) ELSE 1
\* the element at container position p (0-based); a scalar is its own element
Elem(v, p)    == IF IsArr(v) THEN v[2][p + 1] ELSE IF IsObj(v) THEN v[2][p + 1][2] ELSE v
KeyAt(v, p)   == v[2][p + 1][1]
\* container position of iterator position p
Place(v, p, dir) == IF dir = "f" THEN p ELSE Size(v) - 1 - p
Walk(v, dir)  == [i \in 1..Size(v) |-> LET p == Place(v, i - 1, dir) IN <<IF IsObj(v) THEN KeyAt(v, p) ELSE <<>>, Elem(v, p)>>]
PutElem(v, p, x) == IF IsArr(v) THEN VArr([v[2] EXCEPT ![p + 1] = x])
                    ELSE IF IsObj(v) THEN VObj([v[2] EXCEPT ![p + 1] = <<@[1], x>>]) ELSE x

Deref(v, p, dir) == IF p >= Size(v) THEN Err("range") ELSE Val(Elem(v, Place(v, p, dir)))
Key(v, p, dir) == IF p >= Size(v) THEN (IF IsObj(v) THEN Err("range") ELSE Err("any"))
                  ELSE IF ~IsObj(v) THEN Err("iter") ELSE <<"k", KeyAt(v, Place(v, p, dir))>>

\* order of two positions in a value
Less(v, a, b) == IF IsObj(v) THEN Err("iter") ELSE Num(B01(a < b))

Moves == {"pi", "qi", "pd", "qd", "ad", "sb", "pl", "mi"}
Target(n, p, a) == CASE n \in {"pi", "qi"} -> p + 1 [] n \in {"pd", "qd"} -> p - 1 [] n \in {"ad", "pl"} -> p + a [] OTHER -> p - a

\* op = <<name, register, argument>>
Apply(st, op) ==
    LET n == op[1]
        r == op[2]
        a == op[3]
        vals == st[1]
        regs == st[2]
        dir  == st[3]
        it   == regs[r]
        vi   == it[1]
        p    == it[2]
        v    == vals[vi]
        set(x)     == <<vals, [regs EXCEPT ![r] = x], dir>>
        sub        == regs[a]       \* the other register of a binary operation
    IN CASE
         n = "bg" -> <<set(<<a, 0>>), Ok>>
      [] n = "en" -> <<set(<<a, Size(vals[a])>>), Ok>>
      [] n = "mt" -> <<set(<<0, 0>>), Ok>>
      [] n = "as" -> <<set(sub), Ok>>
      [] n = "fd" -> LET x == vals[a[1]] IN <<set(<<a[1], IF IsObj(x) /\ HasKey(x[2], a[2]) THEN KeyPos(x[2], a[2]) - 1 ELSE Size(x)>>), Ok>>
      [] n = "wk" -> <<st, <<"w", Walk(vals[a], dir)>>>>
      [] n = "eq" -> <<st, Num(B01(vi # 0 /\ it = sub))>>
      [] n = "ne" -> <<st, Num(B01(~(vi # 0 /\ it = sub)))>>
      [] n \in {"df", "lt", "le", "gt", "ge"} /\ (vi = 0 \/ sub[1] # vi) -> <<st, Err("iter")>>
      [] n = "df" -> <<st, IF IsArr(v) THEN Num(p - sub[2]) ELSE Err("iter")>>
      [] n = "lt" -> <<st, Less(v, p, sub[2])>>
      [] n = "gt" -> <<st, Less(v, sub[2], p)>>
      [] n = "le" -> <<st, IF IsObj(v) THEN Err("iter") ELSE Num(B01(p <= sub[2]))>>
      [] n = "ge" -> <<st, IF IsObj(v) THEN Err("iter") ELSE Num(B01(p >= sub[2]))>>
      [] vi = 0 -> <<st, Err("iter")>>
      [] n \in {"dr", "va", "ar"} -> <<st, Deref(v, p, dir)>>
      [] n = "ky" -> <<st, Key(v, p, dir)>>
      [] n = "bs" -> <<st, Num(Size(v) - p)>>
      [] n = "cv" -> <<st, Deref(v, p, dir)>>
      [] n \in {"ad", "sb", "pl", "mi"} /\ IsObj(v) -> <<st, Err("iter")>>
      [] n \in {"pi", "pd", "ad", "sb"} -> <<set(<<vi, Target(n, p, a)>>), Ok>>
      [] n \in {"qi", "qd"} -> <<set(<<vi, Target(n, p, a)>>), Deref(v, p, dir)>>
      [] n \in {"pl", "mi"} -> <<st, Deref(v, Target(n, p, a), dir)>>
      [] n = "wr" -> IF p >= Size(v) THEN <<st, Err("range")>>
                     ELSE <<<<[vals EXCEPT ![vi] = PutElem(v, Place(v, p, dir), a)], regs, dir>>, Ok>>
      \* erasing leaves only the returned iterator; the others over that value are set to the end
      [] n \in {"er", "ee"} ->
            IF ~Multi(v) THEN <<st, Err("iter")>>
            ELSE LET q  == IF n = "er" THEN p + 1 ELSE sub[2]
                     v2 == <<v[1], SubSeq(v[2], 1, p) \o SubSeq(v[2], q + 1, Len(v[2]))>>
                 IN <<<<[vals EXCEPT ![vi] = v2],
                        [i \in 1..Len(regs) |-> IF i = r THEN <<vi, p>> ELSE IF regs[i][1] = vi THEN <<vi, Size(v2)>> ELSE regs[i]],
                        dir>>, Ok>>

\* what a user may ask for
Defined(st, op) ==
    LET n == op[1] r == op[2] a == op[3] regs == st[2] dir == st[3] it == regs[r] vi == it[1] p == it[2]
        v == IF vi = 0 THEN VNull ELSE st[1][vi]
        sz == Size(v)
    IN /\ n \in Moves => vi = 0 \/ (n \in {"ad", "sb", "pl", "mi"} /\ IsObj(v)) \/ Target(n, p, a) \in 0..sz
       /\ n \in {"er"} => vi # 0 /\ (Multi(v) => p < sz)
       /\ n = "ee" => vi # 0 /\ (Multi(v) => regs[a][1] = vi /\ p <= regs[a][2])
       /\ dir = "r" => /\ n \notin {"er", "ee", "fd", "mt"}
                       \* the end of a reversed range cannot be read
                       /\ n \in {"dr", "va", "ar", "ky", "cv", "wr", "qi", "qd"} => p < sz
                       /\ n \in {"pl", "mi"} => IsObj(v) \/ Target(n, p, a) < sz
       /\ dir = "f" => n # "bs"
       /\ n = "wr" => vi # 0
       /\ n = "cv" => vi # 0

\* laws
RegsOk(st) == \A i \in 1..Len(st[2]) : st[2][i][1] = 0 \/ st[2][i][2] \in 0..Size(st[1][st[2][i][1]])
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Laws(st, op, st2) ==
    /\ RegsOk(st2)
    /\ \A v \in {st[1][i] : i \in 1..Len(st[1])} : Walk(v, "r") = RevSeq(Walk(v, "f"))
    /\ op[1] \notin {"wr", "er", "ee"} => st2[1] = st[1]
=============================================================================
