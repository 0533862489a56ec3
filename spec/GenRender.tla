----------------------------- MODULE GenRender -----------------------------
(* Prints windows over a ladder of time values, single time values, and      *)
(* durations made of whole units (in nanoseconds), to be written as text.    *)
EXTENDS Render, TLC, IOUtils
GMAX == <<1, <<32767, 32767, 32767, 32767, 7>>>>
GSUB == <<1, <<0, 0, 1>>>>
OPS == IOEnv.OPS
RICH == IOEnv.RICH = "1"
Ladder0 == <<NMAX, Neg(Sub(MAX, W(1))), Neg(Mul(SUB, W(86400 * 40))), W(-1074), W(-2), Zero, W(2), Add(SUB, W(1)), Mul(SUB, W(31556952)), Sub(MAX, W(1)), MAX>>
Ladder1 == <<NMAX, Neg(Sub(MAX, W(1))), Neg(PowW(2, 61)), Neg(Mul(SUB, W(86400 * 40))), Neg(SUB), W(-1074), W(-2), Zero, W(2), W(1073741), Sub(SUB, W(1)), Add(SUB, W(1)), Mul(SUB, W(86400)), Mul(SUB, W(31556952)), Sub(MAX, W(1)), MAX>>
Ladder == IF RICH THEN Ladder1 ELSE Ladder0
K == Len(Ladder)
MAXPARTS == IF RICH THEN 4 ELSE 3

Counts(i) == CASE i = 1 -> {1, 7, 272}
               [] i = 2 -> {1, 11}
               [] i = 3 -> {1, 7, 30}
               [] i = 4 -> {1, 12, 23}
               [] i \in {5, 6} -> {1, 30, 59}
               [] OTHER -> {1, 500, 999}
Times3 == {<<i, j, l>> \in (1 .. 9) \X (1 .. 9) \X (1 .. 9) : i < j /\ j < l}

VARIABLES w, top, job
vars == <<w, top, job>>
Init == w = << >> /\ top = 0 /\ job = << >>
Grow == \E a \in top + 1 .. K : \E b \in a .. K :
            /\ Len(w) < MAXPARTS
            /\ a < K /\ b > 1 /\ (a = b => Finite(Ladder[a]))
            /\ w' = Append(w, <<Ladder[a], Ladder[b]>>)
            /\ top' = b
            /\ job' = <<"win", w'>>
Made(n) == /\ job' = <<"ns", n>> /\ UNCHANGED <<w, top>>
Durations == \/ \E i \in 1 .. 9, c \in 1 .. 1000, d \in -2 .. 2 : c \in Counts(i) /\ Made(Add(Mul(W(c), UnitNanos(i)), W(d)))
             \/ \E p \in Times3 : \E x \in Counts(p[1]), y \in Counts(p[2]), z \in Counts(p[3]) :
                   Made(Add(Mul(W(x), UnitNanos(p[1])), Add(Mul(W(y), UnitNanos(p[2])), Mul(W(z), UnitNanos(p[3])))))
             \/ \E i \in 1 .. 9 : Made(FoldLeft(LAMBDA a, j : Add(a, Mul(W(IF j = i THEN 1 ELSE CHOOSE c \in Counts(j) : \A q \in Counts(j) : q <= c), UnitNanos(j))), Zero, [j \in 1 .. 9 |-> j]))
Next == /\ IF job = << >> THEN TRUE ELSE job[1] = "win"
        /\ \/ OPS = "win" /\ Grow
           \/ OPS = "val" /\ w = << >> /\ \E i \in 1 .. Len(Ladder1), d \in -2 .. 2 :
                 LET a == Add(Ladder1[i], W(d)) IN Le(Abs(a), MAX) /\ job' = <<"val", a>> /\ w' = <<a>> /\ UNCHANGED top
           \/ OPS = "val" /\ w = << >> /\ Durations
Spec == Init /\ [][Next]_vars
EmitStep == PrintT(ToString(<<"T">> \o job'))
=============================================================================
