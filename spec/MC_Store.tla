------------------------------ MODULE MC_Store ------------------------------
(* From every start store, every defined operation, to a depth.  Every step  *)
(* is checked against the laws and printed.                                  *)
EXTENDS StoreOps, Json

CONSTANTS Starts0, Depth, MaxNodes

VARIABLES st, n
vars == <<st, n>>

Init == st \in Starts0 /\ n = 0
Next == /\ n < Depth
        /\ \E op \in Ops(st) :
             /\ Defined(st, op) = TRUE
             /\ LET r == Apply(st, op)
                IN /\ Assert(Laws(st, op, r[1], r[2]), <<"law broken", st, op, r>>)
                   /\ PrintT(ToJson(<<st, op, r[2], r[1]>>))
                   /\ StoreNodes(r[1]) <= MaxNodes
                   /\ st' = r[1]
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars
=============================================================================
