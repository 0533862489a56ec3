--------------------------- MODULE GenScheduler ---------------------------
(* Prints agendas reached by at most one request, with every further request *)
EXTENDS Scheduler, IOUtils
NI   == atoi(IOEnv.NI)
RICH == IOEnv.RICH            \* "1": every window of the small line, else a few
I == 1 .. NI
Lows == {-OO, -1, 0, 1}
Mats == {x \in [I -> [I -> Lows]] : \A i \in I : x[i][i] = 0}
Chain(x) == \A i, j \in I : (i > j + 1 \/ j > i + 1) => x[i][j] = -OO
Close(x) == FoldLeft(LAMBDA y, k : TLCEval([i \in I |-> [j \in I |-> MaxOf(y[i][j], AddLo(y[i][k], y[k][j]))]]), x, [i \in I |-> i])
Atoms == <<<<-OO, -1>>, <<0, 0>>, <<1, 1>>, <<2, OO>>>>
Every == {Norm({Atoms[a] : a \in S}) : S \in SUBSET (1 .. 4)}
Few   == {<<<<0, 0>>>>, <<<<1, OO>>>>, <<<<-OO, -1>>, <<1, 1>>>>, <<<<-OO, 0>>, <<2, OO>>>>, << >>}
Wins  == IF RICH = "1" THEN Every ELSE Few

VARIABLES raw, m, slots, hist, op
vars == <<raw, m, slots, hist, op>>
Hide == <<raw, slots>>
Init == /\ raw \in {x \in Mats : Chain(x)}
        /\ m = Close(raw) /\ \A i \in I : m[i][i] = 0
        /\ slots = Start(NI) /\ hist = << >> /\ op = << >>
Go(o, t) == /\ hist = << >> /\ Viable(t) /\ t # slots
            /\ slots' = t /\ hist' = <<o>> /\ op' = o /\ UNCHANGED <<raw, m>>
Look(o) == op' = o /\ UNCHANGED <<raw, m, slots, hist>>
Move == \/ \E i \in I, W \in Wins : \E t \in {Keep(m, slots, i, W)} : Go(<<"retain", i - 1, W>>, t)
        \/ \E d \in {0, 1} : \E t \in {KeepAll(m, slots, Until(d))} : Go(<<"deadline", d>>, t)
Try == \/ \E i \in I, W \in Wins, o \in {"retain", "remove"} : Look(<<o, i - 1, W>>)
       \/ \E d \in -1 .. 2, o \in {"deadline", "startline"} : Look(<<o, d>>)
       \/ Look(<<"look">>)
Next == Move \/ Try
Spec == Init /\ [][Next]_vars
EmitStep == hist' = hist => PrintT(ToString(<<"T", NI, raw, hist, op'>>))    \* ACTION_CONSTRAINT
=============================================================================
