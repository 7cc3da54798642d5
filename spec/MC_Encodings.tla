----------------------------- MODULE MC_Encodings ----------------------------
(* All selections of up to MaxSel settings for every pair of widths and every *)
(* default, then every string of the instance, written or read.              *)
EXTENDS Encodings, Json

CONSTANTS Dirs,        \* subset of {"d", "p"}
          VWs, TWs,    \* widths of the units of the value and of the text
          Defs, Encs,  \* defaults and encodings of settings
          Kinds,       \* sides of settings
          MaxSel,
          Strs(_, _, _)   \* direction, encoding, width: the strings tried

VARIABLES dir, vw, tw, def, sel, str, esc, shape
vars == <<dir, vw, tw, def, sel, str, esc, shape>>

C == Effect(def, sel)
rw == IF dir = "d" THEN vw ELSE tw
ww == IF dir = "d" THEN tw ELSE vw

Init == /\ dir \in Dirs /\ vw \in VWs /\ tw \in TWs
        /\ def \in Defs /\ (Fits(def, vw) /\ Fits(def, tw)) = TRUE
        /\ sel = <<>> /\ str = <<-9>> /\ esc = 0 /\ shape = "s"
Set == /\ str = <<-9>> /\ Len(sel) < MaxSel
       /\ \E k \in Kinds, e \in Encs :
            /\ Allowed(<<k, e>>, rw, ww) = TRUE
            /\ sel' = Append(sel, <<k, e>>)
       /\ UNCHANGED <<dir, vw, tw, def, str, esc, shape>>
\* only text that ASCII is part of is written
Go == /\ str = <<-9>> /\ (dir = "d" => C[2] # 1)
      /\ str' \in Strs(dir, Real(Effect(def, sel)[1], rw), rw)
      /\ esc' \in (IF dir = "d" THEN {0, 1} ELSE {0})
      /\ shape' \in {"s", "k", "c"}
      /\ (shape' = "c" => dir = "p")
      /\ UNCHANGED <<dir, vw, tw, def, sel>>
Next == Set \/ Go
Spec == Init /\ [][Next]_vars

Num == VFlt(<<-1, 0, 2, 5>>)
ValueOf(s) == IF shape = "s" THEN VArr(<<VStr(s), VBool(1), Num, VStr(s)>>) ELSE VObj(<<<<s, VStr(s)>>>>)
TextOf(s) == LET pl(t) == PlainIn(C[1], t) IN CASE shape = "s" -> pl(<<91, 34>>) \o s \o pl(<<34, 44, 32, 49, 93>>)
               [] shape = "k" -> pl(<<123, 34>>) \o s \o pl(<<34, 58, 34>>) \o s \o pl(<<34, 125>>)
               [] shape = "c" -> pl(<<47, 42>>) \o s \o pl(<<42, 47, 91, 93, 47, 47>>) \o s
O == [EOpt EXCEPT !.esc = esc]
Res == IF dir = "d" THEN DumpWith(ValueOf(str), C, vw, tw, O) ELSE ParseWith(TextOf(str), C, tw, vw)

Done == str # <<-9>>
\* reading what was written, the other way round, gives the value back, unless a character was not one of Unicode's
Back == Done /\ dir = "d" /\ Res[1] = "t" /\ (\A i \in 1..Len(str) : DecU(C[1], vw, str)[2] = 1)
           /\ (\A i \in 1..Len(DecU(C[1], vw, str)[1]) : Scalar(DecU(C[1], vw, str)[1][i]))
        => ParseWith(Res[2], <<C[2], C[1]>>, tw, vw) = ValueOf(str)
\* which encoding the text is in does not matter to who reads it with the same
Same == Done /\ dir = "d" /\ shape = "k" /\ esc = 0 /\ Len(sel) < 2 /\ Res[1] = "t" =>
        \A e \in {8, 0} :
            LET r == DumpWith(ValueOf(str), <<C[1], e>>, vw, 4, O)
                b == IF r[1] = "t" THEN ParseWith(r[2], <<e, C[1]>>, 4, vw) ELSE UNSPEC
                m == ParseWith(Res[2], <<C[2], C[1]>>, tw, vw)
            IN b = UNSPEC \/ m = UNSPEC \/ b = m
\* with escaping the text is ASCII, whatever the encodings
Plain == Done /\ dir = "d" /\ esc = 1 /\ Res[1] = "t" => \A i \in 1..Len(Res[2]) : Res[2][i] \in 0..126
\* a setting of one side leaves the other alone, the last one counts
Sides == \A k \in {"s", "t"}, e \in Encs : LET n == Effect(def, Append(sel, <<k, e>>)) IN n[IF k = "s" THEN 1 ELSE 2] = e /\ n[IF k = "s" THEN 2 ELSE 1] = C[IF k = "s" THEN 2 ELSE 1]
Emit == Done /\ Res # UNSPEC => PrintT(ToJson(<<dir, vw, tw, def, sel, esc, shape, str, Res>>))
=============================================================================
