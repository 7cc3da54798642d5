----------------------------- MODULE MC_Unicode -----------------------------
(* All unit sequences over Units up to MaxLen (a fault ends a sequence, one  *)
(* more unit follows it at most), with what decoding, reading in a string or *)
(* in a comment and writing them gives.                                      *)
EXTENDS JsonReader, JsonWriter, Unicode, Json

CONSTANTS Enc, Units, MaxLen

VARIABLES us, d, out, extra
vars == <<us, d, out, extra>>
Init == us = <<>> /\ d = DStart /\ out = <<>> /\ extra = 0
Next == /\ Len(us) < MaxLen
        /\ extra < 2
        /\ \E u \in Units :
             LET s == DStep(Enc, d, u)
             IN /\ us' = Append(us, u)
                /\ d' = s[1]
                /\ out' = IF s[2] >= 0 THEN Append(out, s[2]) ELSE out
                /\ extra' = IF s[1].m = "bad" THEN extra + 1 ELSE 0
        /\ (extra = 1 => us'[Len(us')] \in {65, 128, 56320})
Spec == Init /\ [][Next]_vars

Ok == d.m = "start"
\* the code is prefix-free and exact: what decodes is the encoding of the result
Exact == Ok => us = FoldLeft(LAMBDA a, c : a \o Encode(Enc, c), <<>>, out)
Fun == Decode(Enc, us) = <<out, IF Ok THEN 1 ELSE 0>>
\* ill-formed text never becomes acceptable again
Scalars == \A i \in 1..Len(out) : Scalar(out[i])

Seen == out \o (IF Ok THEN <<>> ELSE <<BAD>>)
InString  == Read(<<34>> \o Seen \o <<34>>)
InComment == Read(<<47, 42>> \o Seen \o <<42, 47, 49>>)
InKey     == Read(<<123, 34>> \o Seen \o <<34, 58, 49, 125>>)
Dumped(esc) == IF Ok THEN <<"t", StrText(out, esc)>> ELSE SERFAIL
Emit == us # <<>> => PrintT(ToJson(<<us, out, IF Ok THEN 1 ELSE 0, InString, InComment, InKey, Dumped(0), Dumped(1)>>))
=============================================================================
