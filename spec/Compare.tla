------------------------------- MODULE Compare -------------------------------
(* The six comparisons, from VEq and VLess of JsonValue.                      *)
EXTENDS JsonValue
B01(b) == IF b THEN 1 ELSE 0
Six(x, y) == <<B01(VEq(x, y)), B01(~VEq(x, y)), B01(VLess(x, y)), B01(~VLess(y, x)), B01(VLess(y, x)), B01(~VLess(x, y))>>

\* an integer beyond 2^53 next to a float of about the same size is compared
\* after rounding: which of the three it is is not decided here
NearLen == 16       \* models of single precision replace this
Equal   == <<1, 0, 0, 1, 0, 1>>
Lower   == <<0, 1, 1, 1, 0, 0>>
Higher  == <<0, 1, 0, 0, 1, 1>>
RECURSIVE Decided(_, _)
Near(i, f) == Len(i) > NearLen /\ FSgn(f) = i[1] /\ FExp(f) = Len(i) - 2 /\ FClose(IntToFlt(i), f)
Decided(x, y) ==
    CASE IsInt(x) /\ IsFlt(y) -> ~Near(x[2], y[2])
      [] IsFlt(x) /\ IsInt(y) -> ~Near(y[2], x[2])
      [] IsArr(x) /\ IsArr(y) -> \A i \in 1..Min2(Len(x[2]), Len(y[2])) : Decided(x[2][i], y[2][i])
      [] IsObj(x) /\ IsObj(y) -> \A i \in 1..Min2(Len(x[2]), Len(y[2])) : Decided(x[2][i][2], y[2][i][2])
      [] OTHER -> TRUE

\* the results that are allowed; none: not judged
Results(x, y) == IF Decided(x, y) THEN <<Six(x, y)>> ELSE IF IsNum(x) /\ IsNum(y) THEN <<Equal, Lower, Higher>> ELSE <<>>
\* laws of a pair
PairLaws(x, y) ==
    /\ VEq(x, y) = VEq(y, x)
    /\ VEq(x, x) /\ ~VLess(x, x)
    /\ ~(VLess(x, y) /\ VLess(y, x))
    /\ VEq(x, y) => ~VLess(x, y) /\ ~VLess(y, x)
    /\ (IsNum(x) /\ IsNum(y)) => (VEq(x, y) \/ VLess(x, y) \/ VLess(y, x)) /\ Six(x, y) \in {Equal, Lower, Higher}
    /\ (IsStr(x) /\ IsStr(y)) => (VEq(x, y) \/ VLess(x, y) \/ VLess(y, x))
    /\ (Tag(x) # Tag(y) /\ ~(IsNum(x) /\ IsNum(y))) => ~VEq(x, y) /\ ~VLess(x, y)
=============================================================================
