---------------------------- MODULE MC_Iterators ----------------------------
(* Every operation on iterators from every reachable state of small values.  *)
EXTENDS Iterators, Json
CONSTANTS Starts0, KeySet, Depth
VARIABLES st, n
Names1 == {"pi", "qi", "pd", "qd", "dr", "va", "ar", "ky", "bs", "cv", "mt", "er"}
Ops(s) == {<<o, r, 0>> : o \in Names1, r \in 1..Len(s[2])}
     \cup {<<o, r, a>> : o \in {"ad", "sb", "pl", "mi"}, r \in 1..Len(s[2]), a \in -2..3}
     \cup {<<o, r, a>> : o \in {"bg", "en"}, r \in 1..Len(s[2]), a \in 1..Len(s[1])}
     \cup {<<"wk", 1, a>> : a \in 1..Len(s[1])}
     \cup {<<o, r, a>> : o \in {"eq", "ne", "df", "lt", "le", "gt", "ge", "as", "ee"}, r \in 1..Len(s[2]), a \in 1..Len(s[2])}
     \cup {<<"fd", r, <<i, k>>>> : r \in 1..Len(s[2]), i \in 1..Len(s[1]), k \in KeySet}
     \cup {<<"wr", r, VInt(<<1, 9>>)>> : r \in 1..Len(s[2])}
Init == st \in Starts0 /\ n = 0
Next == /\ n < Depth
        /\ \E op \in Ops(st) :
             /\ Defined(st, op) = TRUE
             /\ LET r == Apply(st, op)
                IN /\ Assert(Laws(st, op, r[1]), <<"law broken", st, op, r>>)
                   /\ PrintT(ToJson(<<st, op, r[2], r[1]>>))
                   /\ st' = r[1]
        /\ n' = n + 1
Spec == Init /\ [][Next]_<<st, n>>
=============================================================================
