------------------------------ MODULE MC_Bulk ------------------------------
(* Small sizes: the laws. All sizes: the rows, printed.                      *)
EXTENDS Bulk, Json
CONSTANTS Shapes, Opts, Small, Sizes
VARIABLES x
Rows == {<<"text", s, n, o>> : s \in Shapes, n \in Small \cup Sizes, o \in Opts} \cup {<<"odd", k, n>> : k \in OddKinds, n \in Small \cup Sizes}
        \cup {<<"ops", s, n>> : s \in Shapes, n \in Small \cup Sizes} \cup {<<"cmp", s, n, m>> : s \in Shapes, n \in Small \cup Sizes, m \in Small \cup Sizes}
Init == x \in Rows
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

\* layout and reader agree with the pieces
TextLaw == x[1] = "text" /\ x[3] \in Small /\ (x[2][1] # "M" \/ x[2][2] <= x[3]) =>
    LET t == Flat(Lay(x[2], x[3], x[4])) v == Val(x[2], x[3])
    IN t = Layout(v, x[4], 0) /\ (x[4].ch \in {32, 9} => Read(t) = v)
Denotes(r, n) == IF r[1] = "is" THEN r[2] ELSE Val(r[2], n)
OddLaw == x[1] = "odd" /\ x[3] \in Small =>
    LET p == Odd(x[2], x[3]) t == Flat(p[1]) r == Read(t)
    IN IF p[2] = No THEN r = REJECT ELSE p[2] = <<"any">> \/ r = Denotes(p[2], x[3])
CmpLaw == x[1] = "cmp" /\ x[3] \in Small /\ x[4] \in Small => SixOf(x[3], x[4]) = Six(Val(x[2], x[3]), Val(x[2], x[4]))
\* the operations as defined on the elements
Elems(v) == IF IsArr(v) THEN v[2] ELSE [i \in 1..Len(v[2]) |-> v[2][i][2]]
FactOf(f, n) ==
    CASE f[1] = "sz" -> f[2][1] = (IF x[2][1] \in Halves THEN Len(Val(x[2], n)[2]) ELSE 1)
      [] f[1] = "eh" -> Val(f[2][1][2], f[2][1][3])[2] = Drop(Val(x[2], n)[2], n \div 2) /\ f[2][2] = Len(Val(x[2], n)[2]) - n \div 2
      [] f[1] = "cl" -> Val(f[2][1][2], f[2][1][3])[2] = <<>>
      [] f[1] = "grow" -> Val(f[2][1][2], f[2][1][3]) = VArr([i \in 1..(n + 1) |-> VNull])
      [] f[1] = "have" -> n = 0 \/ f[2] = <<B01(\E i \in 1..n : Val(x[2], n)[2][i][1] = Key(n - 1)), B01(\E i \in 1..n : Val(x[2], n)[2][i][1] = Key(n))>>
      [] f[1] = "dist" -> f[2][1] = Len(Elems(Val(x[2], n)))
      [] OTHER -> TRUE
FactLaw == x[1] = "ops" /\ x[3] \in Small /\ x[2] # <<"M", 1>> => \A i \in 1..Len(Facts(x[2], x[3])) : FactOf(Facts(x[2], x[3])[i], x[3])
Laws == TextLaw /\ OddLaw /\ CmpLaw /\ FactLaw
Emit == PrintT(ToJson(
    CASE x[1] = "text" -> <<x[1], x[2], x[3], <<x[4].step, x[4].ch, x[4].esc, x[4].prec, x[4].fmt>>, Lay(x[2], x[3], x[4]), IF x[3] \in Small THEN Val(x[2], x[3]) ELSE <<>>>>
      [] x[1] = "odd"  -> <<x[1], x[2], x[3]>> \o Odd(x[2], x[3])
      [] x[1] = "ops"  -> <<x[1], x[2], x[3], Facts(x[2], x[3])>>
      [] x[1] = "cmp"  -> <<x[1], x[2], x[3], x[4], SixOf(x[3], x[4])>>))
=============================================================================
