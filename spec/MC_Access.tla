------------------------------ MODULE MC_Access ------------------------------
EXTENDS Access, Json
CONSTANTS Vals, Priors      \* Priors[kind]: what variables hold before, or what is written
VARIABLES c
Init == c \in {<<v, f, k, x>> : v \in Vals, f \in Forms, k \in Kinds, x \in Priors}
            \cup {<<v, f, "v", x>> : v \in Vals, f \in Plain, x \in Priors}
Ok(d) == (d[3] = "v" \/ Tag(d[4]) = d[3]) = TRUE
Next == /\ c[1] # <<"done">>
        /\ Ok(c)
        /\ Assert(ReadLaws(c[1], c[2], c[3], c[4]), <<"law broken", c>>)
        /\ PrintT(ToJson(<<c, Read(c[1], c[2], c[3], c[4])>>))
        /\ c' = <<<<"done">>, c>>
Spec == Init /\ [][Next]_c
=============================================================================
