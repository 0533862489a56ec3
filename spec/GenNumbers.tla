----------------------------- MODULE GenNumbers -----------------------------
(* Prints the transitions of Numbers from every boundary value by every      *)
(* operation with every boundary operand.                                    *)
EXTENDS Numbers, TLC, IOUtils
\* 2^63 - 1 and 2^30, written out (TLC would compute them again and again)
GMAX == <<1, <<32767, 32767, 32767, 32767, 7>>>>
GSUB == <<1, <<0, 0, 1>>>>
ASSUME GMAX = Sub(PowW(2, 63), W(1)) /\ GSUB = PowW(2, 30)
OPS == IOEnv.OPS
RICH == IOEnv.RICH = "1"

Signed(S) == S \cup {Neg(x) : x \in S}
Inside(S, m) == {x \in S : Le(Abs(x), m)}
Powers(K) == {PowW(2, k) : k \in K}
Around(S, D) == {Add(x, W(d)) : x \in S, d \in D}
KS == IF RICH THEN {0, 1, 2, 3, 7, 15, 29, 30, 31, 32, 33, 40, 45, 52, 53, 59, 60, 61, 62, 63} ELSE {0, 2, 15, 30, 31, 32, 45, 61, 62, 63}
Points == TLCEval(Inside(Signed(Around(Powers(KS), -2 .. 2) \cup {W(1000000000), Mul(W(86400), GSUB), Mul(Mul(W(86400), W(36525)), GSUB)}), GMAX))
Factors == TLCEval(Signed(Around(Powers({0, 3, 7, 8, 15, 16, 31, 32, 61, 62, 63, 64} \cup IF RICH THEN {1, 30, 33, 60, 127} ELSE {}), -1 .. 1)
              \cup {W(10), W(1000), W(86400)}))
Nums == TLCEval(Signed({W(0), W(1), W(2), W(3), W(5), W(7), PowW(2, 10), PowW(2, 31), PowW(2, 33), PowW(2, 53), Sub(PowW(2, 24), W(1))}))
Dens == {W(1), W(2), W(8), PowW(2, 31), PowW(2, 45)}
UnitNs == TLCEval(Signed(Around(Powers({0, 7, 8, 15, 16, 31, 32, 33, 63, 64, 127}) \cup
              {W(272), W(3266), W(14203), W(99421), W(2386092), W(143165576), Mul(W(86400), W(100000)),
               Mul(PowW(2, 33), W(1000)), Mul(PowW(2, 33), W(1000000)), Mul(PowW(2, 33), W(1000000000)),
               W(1000), W(999), W(1000000), W(999999999)}, -2 .. 2) \cup {W(5), W(42), W(1001)}))
Secs == {W(0), W(1), W(59), W(86400), W(1700000000), PowW(2, 31), Sub(PowW(2, 33), W(1)), PowW(2, 33), Add(PowW(2, 33), W(1)),
         Mul(W(922337203), W(10)), Mul(W(922337204), W(10)), PowW(2, 34), PowW(2, 52), PowW(2, 53), Sub(PowW(2, 63), W(1))}
Nanos == {W(0), W(1), W(2), W(499999999), W(500000000), W(999999998), W(999999999)}

VARIABLES v, op, arg
vars == <<v, op, arg>>
Sel(s) == OPS = s
Single == {"neg", "after", "before", "class"}
Outward == {"chrono", "std", "date", "loop"}
Init == op = "" /\ arg = << >> /\ v \in IF Sel("unit") \/ Sel("fromout") THEN {Zero} ELSE Points
Do(o, a) == op' = o /\ arg' = a
Next == /\ op = ""
        /\ \/ Sel("arith") /\ \/ \E b \in Points, o \in {"add", "sub"} : Do(o, <<b>>) /\ v' = IF o = "add" THEN Plus(v, b) ELSE Minus(v, b)
                              \/ \E o \in Single : Do(o, << >>) /\ v' = CASE o = "neg" -> Neg(v) [] o = "after" -> After(v) [] o = "before" -> JustBefore(v) [] OTHER -> v
                              \/ Do("ticks", << >>) /\ v' = v
           \/ Sel("cmp") /\ \E b \in Points : Do("cmp", <<b>>) /\ v' = v
           \/ Sel("scale") /\ \E n \in Factors, o \in {"mul", "div"} : Do(o, <<n>>) /\ v' = Times(v, n)
           \/ Sel("float") /\ \E n \in Nums, d \in Dens, o \in {"mulf", "divf"} : (o = "divf" => n[1] # 0) /\ Do(o, <<n, d>>) /\ v' = v
           \/ Sel("round") /\ \E p \in Points, o \in {"floor", "ceil"} : p[1] > 0 /\ Finite(p) /\ Finite(v) /\ Do(o, <<p>>) /\ v' = v
           \/ Sel("trunc") /\ \/ \E k \in Units : Finite(v) /\ Do("trunc", <<k>>) /\ v' = v
                              \/ Do("read", << >>) /\ v' = v
           \/ Sel("unit") /\ \E k \in Units, n \in UnitNs : Do("unit", <<k, n>>) /\ v' = v
           \/ Sel("out") /\ \E o \in Outward : Finite(v) /\ Do(o, << >>) /\ v' = v
           \/ Sel("fromout") /\ \E s \in Signed(Secs), n \in Nanos : Do("fromout", <<s, n>>) /\ v' = v
           \/ Sel("mono") /\ \E d \in -3 .. 3 : Finite(v) /\ Finite(Add(v, W(d))) /\ Do("mono", <<Add(v, W(d))>>) /\ v' = v
           \/ Sel("seq") /\ \E p \in Points, k \in {"fwd", "bwd", "fwdp", "bwdp"} : p[1] > 0 /\ Finite(p) /\ Finite(v) /\ Do("seq", <<p, k>>) /\ v' = v
Spec == Init /\ [][Next]_vars
EmitStep == PrintT(ToString(IF op' = "seq" THEN <<"T", "seq", v, arg'[1], Zero, arg'[2]>> ELSE <<"T", op', v, arg'>>))
=============================================================================
