----------------------------- MODULE MC_Reader -----------------------------
(* Every live prefix over an alphabet of symbols (code point sequences) and *)
(* every first dead extension, with the verdict for the text that ends      *)
(* there.  Every distinct state is printed once.                            *)
EXTENDS JsonReader, Json

CONSTANTS Alphabet, Starts, Ends, MaxSyms

VARIABLES text, st, n
vars == <<text, st, n>>

Init == \E p \in Starts : text = p /\ st = RRun(RInit, p) /\ n = 0
\* an ended or rejected text stays so: it is extended by one more symbol at
\* most (ended) or not at all (rejected)
Next == /\ n < MaxSyms
        /\ st.m # "X"
        /\ \E s \in Alphabet : /\ text' = text \o s
                               /\ st' = RRun(st, s)
                               /\ n' = IF st.m = "E" THEN MaxSyms ELSE n + 1
Spec == Init /\ [][Next]_vars

TypeOK == RTypeOK(st)
\* reading in one go and reading symbol by symbol agree
Incremental == st = RRun(RInit, text)
\* once rejected, always rejected
DeadIsDead == st.m = "X" => REnd(st) = REJECT
Emit == \A s \in Ends : PrintT(ToJson(<<text \o s, REnd(RRun(st, s))>>))
=============================================================================
