----------------------------- MODULE MC_Writer -----------------------------
(* Every value of Values under every option of Options is written token by  *)
(* token; when it is finished, the text and the value read back are printed.*)
EXTENDS JsonReader, JsonWriter, Json

CONSTANTS Values, Options, Readable(_)

VARIABLES v, o, todo, w
vars == <<v, o, todo, w>>

Init == /\ v \in Values /\ o \in Options
        /\ todo = (IF Unwritable(v) THEN <<>> ELSE Tok(v, o))
        /\ w = WInit
Next == /\ todo # <<>>
        /\ w' = WStep(w, Head(todo), o)
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<v, o>>
Spec == Init /\ [][Next]_vars

Done == todo = <<>>
\* the machine writes the layout
MachineIsLayout == Done /\ ~Unwritable(v) => w.out = Layout(v, o, 0) /\ w.d = 0
\* lossless: reading the text gives the rounded value
RoundTrip == Done /\ ~Unwritable(v) /\ Readable(o) => Read(w.out) = Rounded(v, o)
\* rounding is idempotent, so a second round trip changes nothing
Stable == Done /\ ~Unwritable(v) => Rounded(Rounded(v, o), o) = Rounded(v, o)
\* compact text has no white space outside strings; escaped text is ASCII
Ascii == Done /\ o.esc = 1 /\ o.ch < 127 => \A i \in 1..Len(w.out) : w.out[i] < 127
Emit == Done => PrintT(ToJson(<<v, <<o.step, o.ch, o.esc, o.prec, o.fmt>>, Write(v, o), IF Unwritable(v) THEN <<>> ELSE Rounded(v, o)>>))
=============================================================================
