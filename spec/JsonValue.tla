----------------------------- MODULE JsonValue -----------------------------
(* The abstract value of configor::basic_value.                            *)
(*                                                                         *)
(* Values are tagged tuples so that TLC can compare values of every kind:  *)
(*   <<"n">>            null                                               *)
(*   <<"b", 0|1>>       boolean                                            *)
(*   <<"i", dec>>       integer   dec = <<sgn, d1, .., dk>>; zero <<0, 0>> *)
(*   <<"d", flt>>       float     flt = <<sgn, e, d1, .., dk>>, the number *)
(*                      sgn * d1.d2..dk * 10^e, without trailing zeros;    *)
(*                      zero <<0, 0>> (the sign of zero is not observed)   *)
(*   <<"s", cps>>       string, a sequence of code points                  *)
(*   <<"a", vals>>      array                                              *)
(*   <<"o", members>>   object, members = sequence of <<key, value>> in    *)
(*                      container order                                    *)
(* Integers are digit sequences because TLC's integers have 32 bits.       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANT Ordered   \* TRUE: objects keep key order (std::map), FALSE: the order of insertion

VNull     == <<"n">>
VBool(b)  == <<"b", b>>
VInt(d)   == <<"i", d>>
VFlt(d)   == <<"d", d>>
VStr(s)   == <<"s", s>>
VArr(s)   == <<"a", s>>
VObj(s)   == <<"o", s>>

Tag(v)     == v[1]
IsNull(v)  == v[1] = "n"
IsBool(v)  == v[1] = "b"
IsInt(v)   == v[1] = "i"
IsFlt(v)   == v[1] = "d"
IsNum(v)   == v[1] \in {"i", "d"}
IsStr(v)   == v[1] = "s"
IsArr(v)   == v[1] = "a"
IsObj(v)   == v[1] = "o"

EmptyArr == VArr(<<>>)
EmptyObj == VObj(<<>>)
EmptyStr == VStr(<<>>)
IZero    == VInt(<<0, 0>>)
FZero    == VFlt(<<0, 0>>)

---------------------------------------------------------------------------
(* a value inside layers of containers, w = the layers from the outside in: *)
(* 0 [x]   1 {"a": x}   2 [null, x]   3 [x, null]                           *)
(* (recorded traces write deep values like this, since nested JSON must     *)
(* not be deeper than 255)                                                  *)

Layer(t, x) == IF t = 0 THEN VArr(<<x>>)
               ELSE IF t = 1 THEN VObj(<<<<<<97>>, x>>>>)
               ELSE IF t = 2 THEN VArr(<<VNull, x>>)
               ELSE VArr(<<x, VNull>>)
Wrapped(x, w) == FoldRight(Layer, w, x)
WrappedBy(e, x) == IF "w" \in DOMAIN e THEN Wrapped(x, e.w) ELSE x

---------------------------------------------------------------------------
(* small helpers on sequences                                              *)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE LexLess(_, _, _)
\* first difference decides; a proper prefix is smaller
LexLess(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] < b[i] THEN TRUE
    ELSE IF a[i] > b[i] THEN FALSE
    ELSE LexLess(a, b, i + 1)

SeqLess(a, b) == LexLess(a, b, 1)

Rep(x, n)     == [i \in 1..n |-> x]
Drop(s, n)    == SubSeq(s, n + 1, Len(s))
Take(s, n)    == SubSeq(s, 1, Min2(n, Len(s)))
DelAt(s, i)   == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

RECURSIVE StripL(_), StripR(_)
StripL(s) == IF s # <<>> /\ Head(s) = 0 THEN StripL(Tail(s)) ELSE s
StripR(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s

---------------------------------------------------------------------------
(* decimal numbers                                                         *)

MkInt(neg, digits) ==
    LET d == StripL(digits)
    IN IF d = <<>> THEN <<0, 0>> ELSE <<IF neg THEN -1 ELSE 1>> \o d

\* magnitude comparison of digit sequences without leading zeros
DigLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ SeqLess(a, b))

ILess(a, b) ==
    IF a[1] # b[1] THEN a[1] < b[1]
    ELSE IF a[1] = 1 THEN DigLess(Tail(a), Tail(b))
    ELSE IF a[1] = -1 THEN DigLess(Tail(b), Tail(a))
    ELSE FALSE

\* the number 0.digits * 10^point, i.e. `point' is the number of digits
\* before the decimal point
MkFlt(neg, digits, point) ==
    LET lead == Len(digits) - Len(StripL(digits))
        d    == StripR(StripL(digits))
    IN IF d = <<>> THEN <<0, 0>>
       ELSE <<IF neg THEN -1 ELSE 1, point - lead - 1>> \o d

FSgn(f) == f[1]
FExp(f) == IF f[1] = 0 THEN 0 ELSE f[2]
FDig(f) == IF f[1] = 0 THEN <<>> ELSE SubSeq(f, 3, Len(f))

FMagLess(a, b) == \/ FExp(a) < FExp(b)
                  \/ FExp(a) = FExp(b) /\ SeqLess(FDig(a), FDig(b))
FLess(a, b) ==
    IF a[1] # b[1] THEN a[1] < b[1]
    ELSE IF a[1] = 1 THEN FMagLess(a, b)
    ELSE IF a[1] = -1 THEN FMagLess(b, a)
    ELSE FALSE

IntToFlt(i) == IF i[1] = 0 THEN <<0, 0>> ELSE MkFlt(i[1] = -1, Tail(i), Len(i) - 1)

\* Two floats denote the same number to working precision.  The machine
\* floats are reported with 17 significant digits; a tolerance of 2*10^-15
\* (relative) separates rounding noise from a different number.
Limb(d, from) == FoldLeft(LAMBDA a, i : a * 10 + (IF i <= Len(d) THEN d[i] ELSE 0), 0,
                          [i \in 1..8 |-> from + i - 1])
FTol == 20
FTolHi == 0      \* models of single precision replace this (units of 10^-7)
FClose(a, b) ==
    IF a = b THEN TRUE
    ELSE IF a[1] # b[1] \/ a[1] = 0 THEN FALSE
    ELSE LET ea == FExp(a) eb == FExp(b)
             da == FDig(a) db == FDig(b)
             \* bring both to the larger exponent (they may differ by one)
             e  == Max2(ea, eb)
             xa == IF ea = e THEN da ELSE <<0>> \o da
             xb == IF eb = e THEN db ELSE <<0>> \o db
             hd == Limb(xa, 1) - Limb(xb, 1)
             ld == Limb(xa, 9) - Limb(xb, 9)
         IN /\ ea - eb \in -1..1
            /\ IF FTolHi > 0 THEN hd \in -FTolHi..FTolHi
               ELSE /\ hd \in -1..1
                    /\ hd * 100000000 + ld \in -FTol..FTol

---------------------------------------------------------------------------
(* objects                                                                 *)

Keys(m)      == {m[i][1] : i \in 1..Len(m)}
HasKey(m, k) == \E i \in 1..Len(m) : m[i][1] = k
KeyPos(m, k) == CHOOSE i \in 1..Len(m) : m[i][1] = k
MemberOf(m, k) == m[KeyPos(m, k)][2]
\* number of members before the place of k in key order
KeyRank(m, k) == Cardinality({i \in 1..Len(m) : SeqLess(m[i][1], k)})

\* emplace: keeps an existing member
ObjEmplace(m, k, v, ordered) ==
    IF HasKey(m, k) THEN m
    ELSE IF ordered THEN InsAt(m, KeyRank(m, k) + 1, <<k, v>>)
    ELSE Append(m, <<k, v>>)
ObjPut(m, k, v, ordered) ==
    IF HasKey(m, k) THEN [m EXCEPT ![KeyPos(m, k)] = <<k, v>>]
    ELSE ObjEmplace(m, k, v, ordered)
ObjDel(m, k) == IF HasKey(m, k) THEN DelAt(m, KeyPos(m, k)) ELSE m

---------------------------------------------------------------------------
(* agreement of an observed value with a denoted one: same tag and content *)
(* at every node, floats to working precision                              *)
RECURSIVE Agree(_, _)
Agree(x, y) ==
    /\ Tag(x) = Tag(y)
    /\ CASE IsFlt(x) -> FClose(x[2], y[2])
         [] IsArr(x) -> /\ Len(x[2]) = Len(y[2])
                        /\ \A i \in 1..Len(x[2]) : Agree(x[2][i], y[2][i])
         [] IsObj(x) -> /\ Len(x[2]) = Len(y[2])
                        /\ \A i \in 1..Len(x[2]) : /\ x[2][i][1] = y[2][i][1]
                                                   /\ Agree(x[2][i][2], y[2][i][2])
         [] OTHER    -> x = y

---------------------------------------------------------------------------
(* equality and order of configor values                                   *)
RECURSIVE VEq(_, _), VLess(_, _)
VEq(x, y) ==
    IF Tag(x) = Tag(y) THEN
        CASE IsArr(x) -> /\ Len(x[2]) = Len(y[2])
                         /\ \A i \in 1..Len(x[2]) : VEq(x[2][i], y[2][i])
          [] IsObj(x) -> /\ Len(x[2]) = Len(y[2])
                         /\ \A i \in 1..Len(x[2]) : /\ x[2][i][1] = y[2][i][1]
                                                    /\ VEq(x[2][i][2], y[2][i][2])
          [] OTHER    -> x = y
    ELSE IF IsInt(x) /\ IsFlt(y) THEN IntToFlt(x[2]) = y[2]
    ELSE IF IsFlt(x) /\ IsInt(y) THEN x[2] = IntToFlt(y[2])
    ELSE FALSE

\* std::lexicographical_compare with the element order `<'
LexFirstDiff(n, D(_)) == \* smallest i in 1..n with D(i), or 0
    IF \E i \in 1..n : D(i) THEN CHOOSE i \in 1..n : D(i) /\ \A j \in 1..(i - 1) : ~D(j) ELSE 0

MemberLess(a, b) == \* std::pair: first, then second
    \/ SeqLess(a[1], b[1])
    \/ ~SeqLess(b[1], a[1]) /\ VLess(a[2], b[2])

VLess(x, y) ==
    IF Tag(x) = Tag(y) THEN
        CASE IsArr(x) ->
               LET a == x[2] b == y[2] n == Min2(Len(a), Len(b))
                   i == LexFirstDiff(n, LAMBDA j : VLess(a[j], b[j]) \/ VLess(b[j], a[j]))
               IN IF i = 0 THEN Len(a) < Len(b) ELSE VLess(a[i], b[i])
          [] IsObj(x) ->
               LET a == x[2] b == y[2] n == Min2(Len(a), Len(b))
                   i == LexFirstDiff(n, LAMBDA j : MemberLess(a[j], b[j]) \/ MemberLess(b[j], a[j]))
               IN IF i = 0 THEN Len(a) < Len(b) ELSE MemberLess(a[i], b[i])
          [] IsNull(x) -> FALSE
          [] IsStr(x)  -> SeqLess(x[2], y[2])
          [] IsBool(x) -> x[2] < y[2]
          [] IsInt(x)  -> ILess(x[2], y[2])
          [] IsFlt(x)  -> FLess(x[2], y[2])
    ELSE IF IsInt(x) /\ IsFlt(y) THEN FLess(IntToFlt(x[2]), y[2])
    ELSE IF IsFlt(x) /\ IsInt(y) THEN FLess(x[2], IntToFlt(y[2]))
    ELSE FALSE

=============================================================================
