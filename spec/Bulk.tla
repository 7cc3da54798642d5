-------------------------------- MODULE Bulk --------------------------------
(* Large values and texts: nothing has a limit on its size.                   *)
(* A shape with a size n denotes a value; its text is given in pieces         *)
(*   <<"r", k, cps>>           k times the characters cps                     *)
(*   <<"m", i, j, a, b, c>>    for x in i..j-1: a, x as six digits, b, x, c   *)
(* (so large ones need not be written out here). MC_Bulk checks for small n   *)
(* that the pieces are the layout of the value, that reading them gives the   *)
(* value, and that the claims about the operations are those of the other     *)
(* modules; the pieces and claims for large n are replayed into the code.     *)
EXTENDS JsonReader, JsonWriter, Compare

RECURSIVE DecDig(_), Fixed(_, _)
DecDig(x) == IF x < 10 THEN <<x>> ELSE Append(DecDig(x \div 10), x % 10)
Fixed(x, w) == IF w = 0 THEN <<>> ELSE Append(Fixed(x \div 10, w - 1), 48 + (x % 10))
Key(x) == Fixed(x, 6)
IntOf(x) == VInt(MkInt(FALSE, DecDig(x)))

\* shapes: <<"S", c>> n characters c, <<"K", c>> a member whose key has n characters c,
\* <<"A", u>> n elements u, <<"M", from>> members from..n-1 called by their numbers
Val(s, n) ==
    CASE s[1] = "S" -> VStr(Rep(s[2], n))
      [] s[1] = "K" -> VObj(<<<<Rep(s[2], n), VNull>>>>)
      [] s[1] = "A" -> VArr(Rep(s[2], n))
      [] s[1] = "M" -> VObj([i \in 1..(n - s[2]) |-> <<Key(s[2] + i - 1), IntOf(s[2] + i - 1)>>])

Lay(s, n, o) ==
    LET q == <<"r", 1, <<34>>>>
        one(x) == <<"r", 1, x>>
        in1 == NL(o) \o Ind(o, 1)
    IN CASE s[1] = "S" -> <<q, <<"r", n, CharText(s[2], o.esc)>>, q>>
         [] s[1] = "K" -> <<one(<<123>> \o in1 \o <<34>>), <<"r", n, CharText(s[2], o.esc)>>, one(<<34>> \o Colon(o) \o <<110, 117, 108, 108>> \o NL(o) \o <<125>>)>>
         [] s[1] = "A" -> IF n = 0 THEN <<one(<<91>> \o NL(o) \o <<93>>)>>
                          ELSE LET e == Layout(s[2], o, 1) IN <<one(<<91>> \o in1), <<"r", n - 1, e \o <<44>> \o in1>>, one(e \o NL(o) \o <<93>>)>>
         [] s[1] = "M" -> IF n <= s[2] THEN <<one(<<123>> \o NL(o) \o <<125>>)>>
                          ELSE <<one(<<123>> \o in1), <<"m", s[2], n - 1, <<34>>, <<34>> \o Colon(o), <<44>> \o in1>>,
                                 <<"m", n - 1, n, <<34>>, <<34>> \o Colon(o), NL(o) \o <<125>>>>>>

Piece(p) == IF p[1] = "r" THEN FoldLeft(LAMBDA a, i : a \o p[3], <<>>, [i \in 1..p[2] |-> i])
            ELSE FoldLeft(LAMBDA a, i : a \o p[4] \o Key(i) \o p[5] \o Digs(DecDig(i)) \o p[6], <<>>, [i \in 1..(p[3] - p[2]) |-> p[2] + i - 1])
Flat(ps) == FoldLeft(LAMBDA a, p : a \o Piece(p), <<>>, ps)

\* texts that are not layouts, with what reading them gives: <<"is", value>>, <<"shape", s>> (of the same size) or <<"no">>
One == <<"is", VInt(<<1, 1>>)>>
No  == <<"no">>
r1(x) == <<"r", 1, x>>
Odd(k, n) ==
    LET m(x) == <<"r", n, x>>
    IN CASE k = "spaces"    -> <<<<m(<<32>>), r1(<<49>>), m(<<10>>)>>, One>>
         [] k = "block"     -> <<<<r1(<<47, 42>>), m(<<120>>), r1(<<42, 47, 49>>)>>, One>>
         [] k = "stars"     -> <<<<r1(<<47, 42>>), m(<<42>>), r1(<<47, 49>>)>>, IF n = 0 THEN No ELSE One>>
         [] k = "line"      -> <<<<r1(<<49, 47, 47>>), m(<<42>>)>>, One>>
         [] k = "blocks"    -> <<<<m(<<47, 42, 42, 47>>), r1(<<49>>), m(<<47, 42, 47, 42, 47>>)>>, One>>
         [] k = "lines"     -> <<<<m(<<47, 47, 10>>), r1(<<49>>), m(<<47, 47, 13, 10, 32>>)>>, One>>
         [] k = "open"      -> <<<<r1(<<49, 47, 42>>), m(<<42>>)>>, No>>
         [] k = "digits"    -> <<<<r1(<<49>>), m(<<48>>)>>, IF n > 18 THEN No ELSE <<"is", VInt(<<1, 1>> \o Rep(0, n))>>>>
         [] k = "float"     -> <<<<r1(<<49>>), m(<<48>>), r1(<<46, 53>>)>>, IF n > 308 THEN No ELSE <<"is", VFlt(MkFlt(FALSE, <<1>> \o Rep(0, n) \o <<5>>, n + 1))>>>>
         [] k = "zeros"     -> <<<<r1(<<45, 50, 46, 53>>), m(<<48>>)>>, <<"is", VFlt(<<-1, 0, 2, 5>>)>>>>
         [] k = "back"      -> <<<<r1(<<49>>), m(<<48>>), r1(<<46, 48, 101, 45>>), r1(Digs(DecDig(n + 1)))>>, IF n > 4000 THEN <<"any">> ELSE <<"is", VFlt(<<1, -1, 1>>)>>>>
         [] k = "power"     -> <<<<r1(<<49, 101>>), m(<<57>>)>>, IF n = 1 THEN <<"is", VFlt(<<1, 9, 1>>)>> ELSE IF n = 2 THEN <<"is", VFlt(<<1, 99, 1>>)>> ELSE No>>
         [] k = "root"      -> <<<<r1(<<49, 101, 45, 57, 57>>), m(<<57>>)>>, IF n = 0 THEN <<"is", VFlt(<<1, -99, 1>>)>> ELSE <<"is", FZero>>>>
         [] k = "nothing"   -> <<<<r1(<<48, 46>>), m(<<48>>), r1(<<48, 101, 43>>), r1(<<51>>), m(<<57>>)>>, <<"is", FZero>>>>
         [] k = "escapes"   -> <<<<r1(<<34>>), m(<<92, 117, 48, 48, 54, 49>>), r1(<<34>>)>>, <<"shape", <<"S", 97>>>>>>
         [] k = "pairs"     -> <<<<r1(<<34>>), m(<<92, 117, 100, 56, 51, 100, 92, 117, 68, 69, 48, 48>>), r1(<<34>>)>>, <<"shape", <<"S", 128512>>>>>>
         [] k = "slashes"   -> <<<<r1(<<34>>), m(<<92, 92>>), r1(<<34>>)>>, <<"shape", <<"S", 92>>>>>>
         [] k = "quote"     -> <<<<r1(<<34>>), m(<<92, 92>>), r1(<<92, 34>>)>>, No>>
         [] k = "after"     -> <<<<r1(<<49>>), m(<<32>>), r1(<<120>>)>>, No>>
         [] k = "nul"       -> <<<<r1(<<49, 0>>), m(<<120>>)>>, One>>
         [] k = "cutarray"  -> <<<<r1(<<91>>), m(<<49, 44>>)>>, No>>
         [] k = "cutstring" -> <<<<r1(<<34>>), m(<<97>>)>>, No>>
         [] k = "trailing"  -> <<<<r1(<<91>>), m(<<49, 32, 44, 10>>), r1(<<93>>)>>, <<"shape", <<"A", VInt(<<1, 1>>)>>>>>>
         [] k = "same"      -> <<<<r1(<<123, 34, 97, 34, 58, 49>>), m(<<44, 34, 97, 34, 58, 50>>), r1(<<125>>)>>, <<"is", VObj(<<<<<<97>>, VInt(<<1, 1>>)>>>>)>>>>
OddKinds == {"spaces", "block", "stars", "line", "blocks", "lines", "open", "digits", "float", "zeros", "back", "power", "root", "nothing", "escapes", "pairs", "slashes", "quote", "after", "nul",
             "cutarray", "cutstring", "trailing", "same"}

\* what operations on a value give: a list of values, each <<"shape", s, n>>, <<"is", v>> or <<"elements", s, n, reversed>>, or numbers
Shape(s, n) == <<"shape", s, n>>
Halves == {"A", "M"}
\* <<operation, condition on the kind of shape, result>>
Facts(s, n) ==
    LET k == s[1]
        h == n \div 2
        half == IF k = "M" THEN Shape(<<"M", h>>, n) ELSE Shape(s, n - h)
        none == IF k = "M" THEN Shape(<<"M", 0>>, 0) ELSE Shape(s, 0)
    IN << <<"cp", <<Shape(s, n), Shape(s, n)>>>>,           \* copy, both are that
          <<"lone", <<Shape(s, n)>>>>,                       \* a copy whose original has been cleared
          <<"mv", <<<<"is", VNull>>, Shape(s, n)>>>>,
          <<"as", <<Shape(s, n), Shape(s, n)>>>>,            \* copy assignment over something else
          <<"sz", <<IF k \in {"A", "M"} THEN n ELSE 1>>>> >>
       \o (IF k \in Halves THEN << <<"fw", <<<<"elements", s, n, 0>>>>>>, <<"rv", <<<<"elements", s, n, 1>>>>>>,
                                   <<"eh", <<half, n - h>>>>,    \* the first half erased, and what is left to iterate
                                   <<"cl", <<none>>>>,
                                   <<"dist", <<n>>>> >> ELSE <<>>)
       \o (IF k = "A" THEN << <<"grow", <<Shape(<<"A", VNull>>, n + 1)>>>>, <<"push", <<IF n = 0 THEN <<"is", VNull>> ELSE Shape(s, n)>>>> >> ELSE <<>>)
       \o (IF k = "M" THEN << <<"have", <<1, 0>>>>, <<"push", <<IF n = 0 THEN <<"is", VNull>> ELSE Shape(s, n)>>>> >> ELSE <<>>)
       \o (IF (IF k = "A" THEN IsInt(s[2]) ELSE k \in {"S", "M"}) THEN << <<"conv", <<Shape(s, n)>>>> >> ELSE <<>>)
SixOf(n, m) == <<B01(n = m), B01(n # m), B01(n < m), B01(n <= m), B01(n > m), B01(n >= m)>>
=============================================================================
