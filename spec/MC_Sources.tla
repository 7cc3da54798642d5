----------------------------- MODULE MC_Sources -----------------------------
(* Every sequence of up to Depth operations on every source; Pairs: <<text, type>>   *)
(* (texts are code points, BAD allowed; types are indices into Types)        *)
EXTENDS Sources, Json, TLC

CONSTANTS Kinds, Pairs, Types, Ops, Depth
\* Types: sequence of <<descriptor, prior>>

VARIABLES st, text, ty, hist
vars == <<st, text, ty, hist>>

V0 == VArr(<<VInt(<<1, 7>>)>>)
Init == \E k \in Kinds, p \in Pairs :
          /\ st = SrcInit(k, p[1], V0, Types[p[2]][2]) /\ text = p[1] /\ ty = p[2] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops :
             /\ (Can(st, op)) = TRUE
             /\ LET n == Step(Types[ty][1], st, op)
                IN /\ n.res # <<"x", "free">>
                   /\ st' = n.st
                   /\ hist' = Append(hist, <<op, Shown(n.res, n.st)>>)
             /\ UNCHANGED <<text, ty>>
Spec == Init /\ [][Next]_vars

\* nothing is invented: what is left is a tail of the text
IsTail == \E i \in 0..Len(text) : st.rest = SubSeq(text, i + 1, Len(text))
\* a text that ends at its first NUL (a C string) reads alike
CutNul(s) == IF \E i \in 1..Len(s) : s[i] = 0 THEN SubSeq(s, 1, (CHOOSE i \in 1..Len(s) : s[i] = 0 /\ \A j \in 1..(i - 1) : s[j] # 0) - 1) ELSE s
NulEnds == hist = <<>> => Read(text) = Read(CutNul(text))
\* a failed extraction keeps the variable
Keeps == [][(hist'[Len(hist')][2][1][1] \in {"x", "none"}) => st'.t = st.t]_vars
\* a source is read from its position only: what was read before does not matter
Local == [][LET e == hist'[Len(hist')] IN e[1][1] \in {"pa", "pr"} => (Read(st.rest) = REJECT) = (e[2][1][1] = "x")]_vars
Emit == (hist # <<>> /\ (Len(hist) = Depth \/ \A op \in Ops : Can(st, op) = FALSE)) => PrintT(ToJson(<<st.kind, text, ty, hist>>))
=============================================================================
