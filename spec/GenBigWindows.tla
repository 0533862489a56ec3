--------------------------- MODULE GenBigWindows ---------------------------
(* Prints the transitions of BigWindows between windows whose bounds lie on *)
(* and next to the limits of the representable range.                       *)
EXTENDS BigWindows, IOUtils
GMAX == <<1, <<32767, 32767, 32767, 32767, 7>>>>
GSUB == <<1, <<0, 0, 1>>>>
ASSUME GMAX = Sub(PowW(2, 63), W(1))
OPS == IOEnv.OPS
RICH == IOEnv.RICH = "1"

NEAR == {W(0), W(1)} \cup IF RICH THEN {W(2)} ELSE {}
Ends == TLCEval({GMAX, Neg(GMAX)} \cup {Sub(GMAX, Add(d, W(1))) : d \in NEAR} \cup {Neg(Sub(GMAX, Add(d, W(1)))) : d \in NEAR}
           \cup {W(-1), W(0), W(1)} \cup IF RICH THEN {W(3), PowW(2, 31), Neg(PowW(2, 62))} ELSE {})
Sounds == TLCEval({p \in Ends \X Ends : Sound(p)})
Ones == TLCEval({<< >>} \cup {<<p>> : p \in Sounds})
Twos == TLCEval({s \in {NormAll({x, y}) : x \in Sounds, y \in Sounds} : Len(s) = 2})
Windows == Ones \cup Twos
Ticks2 == TLCEval({t \in Ends : Finite(t)})
\* shifts which keep some bounds inside the range, to the last tick
Shifts == TLCEval({W(0), W(1), W(-1), W(-3), TOP, Neg(TOP), Sub(TOP, W(1)), Sub(W(1), TOP), PowW(2, 62)})
Moves == TLCEval({<<<<s, s>>>> : s \in Shifts} \cup {<<<<s, Add(s, W(1))>>>> : s \in {W(0), W(-3)}} \cup {<<<<s, MAX>>>> : s \in {W(0), TOP, Neg(TOP)}} \cup {<<<<NMAX, s>>>> : s \in {W(1), TOP}}
            \cup {<<<<NMAX, MAX>>>>, << >>, <<<<W(-5), W(-5)>>, <<W(5), W(6)>>>>})
Factors == TLCEval({W(0), W(1), W(-1), W(2), W(-3), TOP, Neg(TOP), MAX, PowW(2, 62)})
Radii == TLCEval({W(-1), W(0), W(1), W(2), TOP, MAX, PowW(2, 62), Sub(TOP, W(1)), Neg(PowW(2, 62)), Neg(TOP)})

VARIABLES w, op, b, k, q, kind
vars == <<w, op, b, k, q, kind>>
Init == /\ op = "" /\ b = << >> /\ k = Zero /\ q = Zero /\ kind = ""
        /\ w \in IF OPS = "build" THEN {<< >>} ELSE IF OPS \in {"grow"} THEN Ones ELSE Windows
Do(o, v, x, y, s) == op' = o /\ b' = v /\ k' = x /\ q' = y /\ kind' = s /\ w' = w
Bin(o) == \E v \in Ones : Do(o, v, Zero, Zero, "")
Sel(s) == OPS = s
Next == /\ op = ""
        /\ \/ Sel("union") /\ Bin("union")
           \/ Sel("inter") /\ Bin("inter")
           \/ Sel("compl") /\ (Bin("excl") \/ Do("compl", << >>, Zero, Zero, "") \/ Do("compl2", << >>, Zero, Zero, ""))
           \/ Sel("cut") /\ \E o \in {"tb", "ta"}, t \in Ticks2 : Do(o, << >>, t, Zero, "")
           \/ Sel("rel") /\ (Bin("has") \/ Bin("ov") \/ Bin("eq"))
           \/ Sel("ord") /\ Bin("ord")
           \/ Sel("shape") /\ (Do("shape", << >>, Zero, Zero, "") \/ (Len(w) <= 1 /\ Do("len", << >>, Zero, Zero, "")))
           \/ Sel("lazy") /\ \E s \in {"u", "i", "x", "c"}, v \in Ones : (s = "c" => v = << >>) /\ Do("lazy", v, Zero, Zero, s)
           \/ Sel("collect") /\ Bin("collect")
           \/ Sel("move") /\ \/ \E v \in Moves : SumInside(w, v) /\ Do("sum", v, Zero, Zero, "")
                             \/ \E v \in Moves : SumInside(w, Opp(v)) /\ Do("diff", v, Zero, Zero, "")
                             \/ Do("neg", << >>, Zero, Zero, "")
           \/ Sel("scale") /\ \E f \in Factors : \/ MulInside(w, f) /\ Do("mul", << >>, f, Zero, "")
                                                 \/ f[1] # 0 /\ Do("div", << >>, f, Zero, "")
           \/ Sel("grow") /\ \/ w = << >> /\ \E c \in Ticks2, r \in Radii : Do("around", << >>, c, r, "")
                             \/ \E r \in Radii : Finite(r) /\ Do("grow", << >>, r, Zero, "")
           \/ Sel("build") /\ \E s \in Builders, x \in Ends, y \in Ends : Do("build", << >>, x, y, s)
Spec == Init /\ [][Next]_vars
EmitStep == PrintT(ToString(<<"T", op', w, b', k', q', kind'>>))
=============================================================================
