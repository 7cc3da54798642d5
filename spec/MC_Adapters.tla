---------------------------- MODULE MC_Adapters ----------------------------
EXTENDS Adapters, Json
CONSTANTS Contents, Delims, Depth, Chars
VARIABLES st     \* <<"i", source, position, history>> or <<"o", received, history>>
InOps == {<<o, 0, 0>> : o \in {"bump", "get", "getc", "it1", "peek", "sgetc", "snext", "ws"}}
         \cup {<<o, n, 0>> : o \in {"read", "sgetn"}, n \in {0, 1, 2, 3}} \cup {<<"it", 2, 0>>, <<"ign", 2, 0>>}
         \cup {<<o, n, d>> : o \in {"gl", "gb"}, n \in {1, 3}, d \in Delims}
         \cup {<<"ignd", 3, d>> : d \in Delims} \cup {<<"gs", 0, d>> : d \in Delims}
OOps == {<<o, <<c>>>> : o \in {"put", "sputc", "insc"}, c \in Chars}
        \cup {<<o, s>> : o \in {"write", "sputn", "ins", "oit"}, s \in {<<>>, <<98>>} \cup {<<c, 97, c>> : c \in Chars}}
        \cup {<<"flush", <<>>>>}
Init == st \in {<<"i", s, 0, <<>>>> : s \in Contents} \cup {<<"o", <<>>, <<>>>>}
NextIn == /\ st[1] = "i" /\ Len(st[4]) < Depth
          /\ \E op \in InOps :
               /\ Enabled(st[2], st[3], op) = TRUE
               /\ Assert(InLaws(st[2], st[3], op), <<"law broken", st, op>>)
               /\ LET r == DoIn(st[2], st[3], op)
                      h == Append(st[4], <<op, r[1]>>)
                  IN /\ Len(h) < Depth \/ PrintT(ToJson(<<"i", st[2], h>>))
                     /\ st' = <<"i", st[2], r[2], h>>
NextOut == /\ st[1] = "o" /\ Len(st[3]) < Depth
           /\ \E op \in OOps :
                LET h == Append(st[3], op)
                    t == st[2] \o DoOut(op)
                IN /\ Len(h) < Depth \/ (Assert(t = RunOut(h), "law broken") /\ PrintT(ToJson(<<"o", t, h>>)))
                   /\ st' = <<"o", t, h>>
Next == NextIn \/ NextOut
Spec == Init /\ [][Next]_st
=============================================================================
