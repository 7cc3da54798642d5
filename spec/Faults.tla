------------------------------ MODULE Faults ------------------------------
(* Operations on values while memory may run out at any allocation.          *)
(* A fault strikes an operation at some allocation; what may be seen then:   *)
(* the operation completed as it does without the fault (it recovered), or   *)
(* it raised the failure and left the store as it was, except that a null    *)
(* target of an append or index operation may have become an empty container.*)
EXTENDS ValueStore

ALLOC == Err("alloc")

ToArray  == {"ix", "pv", "eb", "pb", "pm"}
ToObject == {"ik", "iC"}
\* the stores a fault may leave
FaultStates(st, op) ==
    {st} \cup (IF ~IsNull(Get(st, op[2])) THEN {}
               ELSE IF op[1] \in ToArray THEN {Put(st, op[2], EmptyArr)}
               ELSE IF op[1] \in ToObject THEN {Put(st, op[2], EmptyObj)} ELSE {})
\* <<store, result>> pairs under a fault
FaultOutcomes(st, op) == {Apply(st, op)} \cup {<<s, ALLOC>> : s \in FaultStates(st, op)}

\* laws
Retry(st, op) == \A s \in FaultStates(st, op) : Apply(s, op) = Apply(st, op)   \* the operation can be repeated
RootsKept(st, op) == \A s \in FaultStates(st, op) : \A r \in 1..Len(st) : r # op[2][1] => s[r] = st[r]
NoLoss(st, op) == \A s \in FaultStates(st, op) : StoreNodes(s) = StoreNodes(st)
StillWF(st, op) == \A s \in FaultStates(st, op) : \A r \in 1..Len(s) : WF(s[r])
FaultLaws(st, op) == Retry(st, op) /\ RootsKept(st, op) /\ NoLoss(st, op) /\ StillWF(st, op)
===========================================================================
