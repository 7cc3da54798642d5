---------------------------- MODULE Trace_Depth ----------------------------
(* The lines of the indented text of 1 inside N layers, layer d (from the    *)
(* outside, 0-based) an object with the key "k" when 3 divides d, else an    *)
(* array. Events: <<N, step, character, line number, width, rest>> and       *)
(* <<N, step, character, total>>.                                            *)
EXTENDS JsonReader, JsonWriter, Json
CONSTANT TraceFile
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)

InObj(d) == d > 0 /\ (d - 1) % 3 = 0     \* is what lies at depth d a member?
Lead(d, ch) == IF InObj(d) THEN <<34, 107, 34, 58, ch>> ELSE <<>>
\* line i: depth and what follows the indentation
LineOf(N, ch, i) ==
    IF i < N THEN <<i, Lead(i, ch) \o <<IF i % 3 = 0 THEN 123 ELSE 91>>>>
    ELSE IF i = N THEN <<N, Lead(N, ch) \o <<49>>>>
    ELSE LET d == 2 * N - i IN <<d, <<IF d % 3 = 0 THEN 125 ELSE 93>>>>

\* which are the lines of the layout
RECURSIVE Chain(_, _)
Chain(N, d) == IF d = N THEN VInt(<<1, 1>>) ELSE IF d % 3 = 0 THEN VObj(<<<<<<107>>, Chain(N, d + 1)>>>>) ELSE VArr(<<Chain(N, d + 1)>>)
AsLayout(N, step, ch) ==
    FoldLeft(LAMBDA a, i : LET x == LineOf(N, ch, i) IN a \o (IF i > 0 THEN <<10>> ELSE <<>>) \o Rep(ch, step * x[1]) \o x[2], <<>>, [i \in 1..(2 * N + 1) |-> i - 1])
ASSUME \A N \in 0..9, step \in 1..4, ch \in {32, 9} :
    AsLayout(N, step, ch) = Layout(Chain(N, 0), [DefaultOpt EXCEPT !.step = step, !.ch = ch], 0)

Explains(e) ==
    IF Len(e) = 4 THEN e[4] = 2 * e[1] + 1
    ELSE LET x == LineOf(e[1], e[3], e[4]) IN e[5] = e[2] * x[1] /\ e[6] = x[2]

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Explains(Trace[l]) = TRUE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
