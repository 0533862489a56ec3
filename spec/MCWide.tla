------------------------------- MODULE MCWide -------------------------------
(* Wide arithmetic against TLC's own integers, for all small values.          *)
EXTENDS Wide, TLC
CONSTANT R
VARIABLES x, y
RECURSIVE ValM(_, _)
ValM(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + Base * ValM(m, i + 1)
Val(a) == a[1] * ValM(a[2], 1)
Init == x \in -R .. R /\ y \in -R .. R
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Abs1(n) == IF n < 0 THEN -n ELSE n
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
\* towards zero
Quot(a, n) == Sign(a) * Sign(n) * (Abs1(a) \div Abs1(n))
Good == LET a == W(x) b == W(y) IN
        /\ IsWide(a) /\ Val(a) = x
        /\ IsWide(Add(a, b)) /\ Val(Add(a, b)) = x + y
        /\ IsWide(Sub(a, b)) /\ Val(Sub(a, b)) = x - y
        /\ IsWide(Mul(a, b)) /\ Val(Mul(a, b)) = x * y
        /\ IsWide(Neg(a)) /\ Val(Neg(a)) = -x
        /\ Cmp(a, b) = Sign(x - y)
        /\ Lt(a, b) = (x < y) /\ Le(a, b) = (x <= y)
        /\ y # 0 => \A q \in Quot(x, y) - 2 .. Quot(x, y) + 2 : IsQuot(a, b, W(q)) = (q = Quot(x, y))
        /\ y > 0 => \A q \in (x \div y) - 2 .. (x \div y) + 2 : IsFloor(a, b, W(q)) = (q = x \div y)
=============================================================================
