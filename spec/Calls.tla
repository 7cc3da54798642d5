------------------------------- MODULE Calls -------------------------------
(* Calls as functions of their arguments.                                    *)
(*                                                                           *)
(* A store holds shared values, which every thread reads, and one private    *)
(* value of the thread, the last. A call is                                  *)
(*   <<fault, "st", op>>                        a store operation            *)
(*   <<fault, "rd", ops>>    store operations that only read, one by one      *)
(*   <<fault, "pa", unit, form, text>>          parse into the private value *)
(*   <<fault, "du", unit, form, loc, step, ch, esc>>                         *)
(*   <<fault, "cm", loc, loc>>   <<fault, "it", loc>>                        *)
(*   <<fault, "ge", type, loc>>                 to a native and back         *)
(*   <<fault, "en", bits>>      the surroundings change: locale, errno, flags *)
(*                    of the floating point unit and of streams, and so on   *)
(* fault = 1: an allocation of the call may have failed.                     *)
(* Outcomes(st, c): does result r with private value w agree with call c?    *)
(* Neither the calls made before nor those of other threads nor what         *)
(* surrounds the calls appear.                                               *)
EXTENDS JsonReader, JsonWriter, Convert
CONSTANT Types      \* name -> descriptor
Store == INSTANCE ValueStore
Cmp   == INSTANCE Compare
Iter  == INSTANCE Iterators

Own(st) == st[Len(st)]
At(st, l) == Store!Get(st, l)
Failing(r) == r[1] = "x"

ParseOk(st, c, r, w) ==
    LET v == IF c[4] = "x" /\ RRun(RInit, c[5]).m # "E" THEN REJECT ELSE Read(c[5])
    IN IF v = REJECT THEN Failing(r) /\ r[2] # "again" /\ (c[4] = "h" <=> r[2] = "handled") /\ w = Own(st)
       ELSE r = <<"ok">> /\ Agree(v, w)
CallOpt(c) == IF c[4] = "<" THEN DefaultOpt ELSE [DefaultOpt EXCEPT !.step = c[6], !.ch = c[7], !.esc = c[8]]
DumpOk(st, c, r, w) ==
    LET v == At(st, c[5])
    IN w = Own(st) /\ (IF Unwritable(v) THEN Failing(r) ELSE r = <<"t", Layout(v, CallOpt(c), 0)>>)
GetOk(st, c, r, w) ==
    LET T == Types[c[3]]
        o == From(T, At(st, c[4]), Default(T))
    IN CASE o[1] = 2 -> TRUE
         [] o[1] = 0 -> Failing(r) /\ w = Own(st)
         [] o[1] = 1 -> r = <<"ok">> /\ w = To(T, o[2])
\* results of the operations, and which pointers to native contents there are
ReadOk(st, ops, r) ==
    LET x == At(st, ops[1][2])
    IN r = <<"m", [i \in 1..Len(ops) |-> Store!Apply(st, ops[i])[2]],
             <<Store!B01(IsBool(x)), Store!B01(IsInt(x)), Store!B01(IsFlt(x)), Store!B01(IsStr(x)), Store!B01(IsArr(x)), Store!B01(IsObj(x))>>>>
Outcomes(st, c, r, w) ==
    \/ c[1] = 1 /\ Failing(r) /\ w = Own(st)
    \/ CASE c[2] = "st" -> LET o == Store!Apply(st, c[3]) IN r = o[2] /\ o[1] = [st EXCEPT ![Len(st)] = w]
         [] c[2] = "rd" -> w = Own(st) /\ ReadOk(st, c[3], r)
         [] c[2] = "pa" -> ParseOk(st, c, r, w)
         [] c[2] = "du" -> DumpOk(st, c, r, w)
         [] c[2] = "cm" -> w = Own(st) /\ (~Cmp!Decided(At(st, c[3]), At(st, c[4])) \/ r = <<"c", Cmp!Six(At(st, c[3]), At(st, c[4]))>>)
         [] c[2] = "it" -> w = Own(st) /\ r = <<"i", Iter!Walk(At(st, c[3]), "f"), Iter!Walk(At(st, c[3]), "r")>>
         [] c[2] = "en" -> r = <<"ok">> /\ w = Own(st)
         [] c[2] = "ge" -> GetOk(st, c, r, w)

\* a thread: <<initial private value, sequence of <<call, result, private value>>>>
RECURSIVE Thread(_, _, _, _)
Thread(shared, w, h, i) ==
    IF i > Len(h) THEN TRUE
    ELSE Outcomes(Append(shared, w), h[i][1], h[i][2], h[i][3]) = TRUE /\ Thread(shared, h[i][3], h, i + 1)
===========================================================================
