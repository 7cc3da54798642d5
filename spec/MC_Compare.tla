----------------------------- MODULE MC_Compare -----------------------------
EXTENDS Compare, Json
CONSTANTS Vals
VARIABLES c
Init == c \in {<<v>> : v \in Vals}
Next == /\ Len(c) = 1
        /\ \E w \in Vals :
             /\ Assert(PairLaws(c[1], w), <<"law broken", c[1], w>>)
             /\ \A z \in Vals : (IsNum(c[1]) /\ IsNum(w) /\ IsNum(z) /\ VLess(c[1], w) /\ VLess(w, z)) => Assert(VLess(c[1], z), <<"not transitive", c[1], w, z>>)
             /\ Results(c[1], w) # <<>>
             /\ PrintT(ToJson(<<c[1], w, Results(c[1], w)>>))
             /\ c' = <<c[1], w>>
Spec == Init /\ [][Next]_c
=============================================================================
