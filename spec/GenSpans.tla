----------------------------- MODULE GenSpans ------------------------------
(* Prints the transitions of the numeric window machine over a small range  *)
(* of integers and two unbounded rays, for the harness to execute.          *)
EXTENDS Spans, IOUtils
OPS == IOEnv.OPS
R   == atoi(IOEnv.RANGE)          \* finite bounds lie in -R .. R
RB  == atoi(IOEnv.RANGEB)

CellPart(c, r) == IF c = -(r + 1) THEN <<-OO, c>> ELSE IF c = r + 1 THEN <<c, OO>> ELSE <<c, c>>
WindowsOf(r) == {Norm({CellPart(c, r) : c \in S}) : S \in SUBSET (-(r + 1) .. r + 1)}
Convexes(r)  == {v \in WindowsOf(r) : Len(v) <= 1}

VARIABLES w, op, arg
vars == <<w, op, arg>>
Stretch(A, k) == Mul(A, k)
GInit == w \in (IF OPS = "stretch" THEN {Stretch(A, k) : A \in WindowsOf(R), k \in {3, 49, 1000}} ELSE WindowsOf(R)) /\ op = "" /\ arg = << >>
Step(o, b, k, q, r) == op' = o /\ arg' = <<b, k, q>> /\ w' = r
Moves == \E b \in WindowsOf(RB) : \/ Step("sum", b, 0, 1, Sum(w, b))
                                  \/ Step("diff", b, 0, 1, Diff(w, b))
Negs  == Step("neg", w, 0, 1, Neg(w))
Muls  == \E k \in -5 .. 5 : Step("mul", w, k, 1, Mul(w, k))
Divs  == \E k \in (-5 .. 5) \ {0} : Step("div", w, k, 1, Div(w, k))
Fracs == \E k \in -5 .. 5, q \in {1, 2, 4} : Exact(w, k, q) /\ Step("mulq", w, k, q, MulQ(w, k, q))
FracDivs == \E k \in {-5, -3, -2, -1, 1, 2, 3, 5, 49}, q \in {1, 2, 4, 8} : Exact(w, q, k) /\ Step("divq", w, k, q, DivQ(w, k, q))
Grows == /\ Len(w) <= 1
         /\ \/ \E r \in -3 .. 3 : Step("grow", w, r, 1, Grow(w, r))
            \/ Step("len", w, 0, 1, w)
Cents == w = << >> /\ \E c \in -3 .. 3, r \in -2 .. 4 : Step("around", w, c, r, Around(c, r))
GNext == /\ op = ""
         /\ \/ OPS = "move" /\ (Moves \/ Negs)
            \/ OPS = "scale" /\ (Muls \/ Divs \/ Fracs \/ FracDivs)
            \/ OPS = "stretch" /\ (FracDivs \/ \E k \in {-1000, -49, 1000} : Exact(w, 1, k) /\ Step("divq", w, k, 1, DivQ(w, k, 1)))
            \/ OPS = "derive" /\ (Grows \/ Cents)
            \/ OPS = "len" /\ Grows /\ op' = "len"
GSpec == GInit /\ [][GNext]_vars
EmitStep == PrintT(ToString(<<"T", op', w, arg'[1], arg'[2], arg'[3]>>))
=============================================================================
