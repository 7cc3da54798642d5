----------------------------- MODULE MC_Faults -----------------------------
(* Histories in which every step either completes or is struck by a fault.   *)
(* Every <<store, operation>> met is printed with its allowed outcomes.      *)
EXTENDS Faults, StoreOps, Json

CONSTANTS Starts0, Depth, MaxNodes
VARIABLES st, n
vars == <<st, n>>

Init == st \in Starts0 /\ n = 0
Next == /\ n < Depth
        /\ \E op \in Ops(st) :
             /\ Defined(st, op) = TRUE
             /\ Assert(FaultLaws(st, op), <<"law broken", st, op>>)
             /\ LET r == Apply(st, op)
                IN /\ PrintT(ToJson(<<st, op, r[2], r[1], FaultStates(st, op)>>))
                   /\ \E s \in FaultStates(st, op) \cup {r[1]} : StoreNodes(s) <= MaxNodes /\ st' = s
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars
=============================================================================
