------------------------------ MODULE StoreOps ------------------------------
(* The operations that apply to a store                                      *)
EXTENDS ValueStore
CONSTANTS OpNames, KeySet, Idx, Lits

MadeFrom == {VArr(<<>>)} \cup {VArr(<<VStr(k), v>>) : k \in KeySet, v \in Lits}
            \cup {VArr(<<VStr(j), v, VStr(k), VNull>>) : j \in KeySet, k \in KeySet, v \in Lits}
LocOps == {"cp", "mv", "sw", "pb", "pm"}
Ops(s) ==
    LET L == Locs(s)
        R == {<<r, <<>>>> : r \in 1..Len(s)}
    IN  UNION {
          CASE o \in LocOps -> {<<o, l, a>> : l \in L, a \in L}
            [] o \in {"cc", "mc"} -> {<<o, l, a>> : l \in R, a \in L}
            [] o \in {"set", "pv", "eb"} -> {<<o, l, a>> : l \in L, a \in Lits}
            [] o = "mt" -> {<<o, l, a>> : l \in L, a \in 0..6}
            [] o = "ma" -> {<<o, l, a>> : l \in L, a \in {x \in Lits : IsArr(x)}}
            [] o = "mo" -> {<<o, l, a>> : l \in L, a \in MadeFrom}
            [] o \in {"nul", "sz", "em", "ty", "cl"} -> {<<o, l, 0>> : l \in L}
            [] o \in {"ix", "ci", "ai", "ei"} -> {<<o, l, a>> : l \in L, a \in Idx}
            [] o \in {"hx", "hc", "ha"} -> {<<o, l, a>> : l \in L, a \in 0..2}
            [] OTHER -> {<<o, l, a>> : l \in L, a \in KeySet}
        : o \in OpNames}
=============================================================================
