-------------------------------- MODULE Wide --------------------------------
(* Integers of any size.  TLC's own integers hold 32 bits; time values hold  *)
(* 64 and scale factors 128.  A wide integer is <<sign, limbs>> with sign in *)
(* {-1, 0, 1} and limbs the magnitude, least significant first, base Base,   *)
(* without trailing zero limbs (zero is <<0, << >>>>).                       *)
EXTENDS Integers, Sequences, SequencesExt

CONSTANT Base
ASSUME Base \in Nat /\ Base >= 2 /\ Base <= 32768   \* limb products fit in TLC's integers

Zero == <<0, << >>>>

RECURSIVE Strip(_)
Strip(m) == IF m = << >> THEN m ELSE IF m[Len(m)] = 0 THEN Strip(SubSeq(m, 1, Len(m) - 1)) ELSE m
Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
Longest(x, y) == IF Len(x) >= Len(y) THEN Len(x) ELSE Len(y)

(* magnitudes *)
RECURSIVE MCmpAt(_, _, _)
MCmpAt(x, y, i) == IF i = 0 THEN 0 ELSE IF x[i] < y[i] THEN -1 ELSE IF x[i] > y[i] THEN 1 ELSE MCmpAt(x, y, i - 1)
MCmp(x, y) == IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE MCmpAt(x, y, Len(x))

RECURSIVE MAddAt(_, _, _, _, _, _)
MAddAt(x, y, i, n, c, acc) ==
    IF i > n THEN IF c = 0 THEN acc ELSE Append(acc, c)
    ELSE LET s == Limb(x, i) + Limb(y, i) + c IN MAddAt(x, y, i + 1, n, s \div Base, Append(acc, s % Base))
MAdd(x, y) == MAddAt(x, y, 1, Longest(x, y), 0, << >>)

RECURSIVE MSubAt(_, _, _, _, _)
MSubAt(x, y, i, b, acc) ==
    IF i > Len(x) THEN acc
    ELSE LET d == x[i] - Limb(y, i) - b IN
         IF d < 0 THEN MSubAt(x, y, i + 1, 1, Append(acc, d + Base)) ELSE MSubAt(x, y, i + 1, 0, Append(acc, d))
MSub(x, y) == Strip(MSubAt(x, y, 1, 0, << >>))     \* x >= y

RECURSIVE MScaleAt(_, _, _, _, _)
MScaleAt(x, k, i, c, acc) ==
    IF i > Len(x) THEN IF c = 0 THEN acc ELSE Append(acc, c)
    ELSE LET s == x[i] * k + c IN MScaleAt(x, k, i + 1, s \div Base, Append(acc, s % Base))
MScale(x, k) == IF k = 0 THEN << >> ELSE MScaleAt(x, k, 1, 0, << >>)     \* k a limb

RECURSIVE MMulAt(_, _, _)
\* Horner from the most significant limb of y
MMulAt(x, y, i) == IF i > Len(y) THEN << >>
                   ELSE LET rest == MMulAt(x, y, i + 1) IN
                        Strip(MAdd(MScale(x, y[i]), IF rest = << >> THEN << >> ELSE <<0>> \o rest))
MMul(x, y) == IF x = << >> \/ y = << >> THEN << >> ELSE MMulAt(x, y, 1)

(* signed *)
Of(s, m) == IF m = << >> THEN Zero ELSE <<s, m>>
Neg(a) == <<-a[1], a[2]>>
Abs(a) == <<IF a[1] = 0 THEN 0 ELSE 1, a[2]>>
Sgn(a) == a[1]
Cmp(a, b) == IF a[1] # b[1] THEN IF a[1] < b[1] THEN -1 ELSE 1
             ELSE a[1] * MCmp(a[2], b[2])
Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0
Add(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
             ELSE IF a[1] = b[1] THEN <<a[1], MAdd(a[2], b[2])>>
             ELSE LET c == MCmp(a[2], b[2]) IN
                  IF c = 0 THEN Zero
                  ELSE IF c > 0 THEN <<a[1], MSub(a[2], b[2])>> ELSE <<b[1], MSub(b[2], a[2])>>
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Of(a[1] * b[1], MMul(a[2], b[2]))

(* from a native integer *)
RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN << >> ELSE <<n % Base>> \o MagOf(n \div Base)
W(n) == IF n = 0 THEN Zero ELSE IF n > 0 THEN <<1, MagOf(n)>> ELSE <<-1, MagOf(-n)>>

RECURSIVE PowW(_, _)
PowW(b, k) == IF k = 0 THEN W(1) ELSE Mul(W(b), PowW(b, k - 1))

(* a well-formed representation *)
IsWide(a) == /\ a[1] \in {-1, 0, 1}
             /\ \A i \in 1 .. Len(a[2]) : a[2][i] \in 0 .. Base - 1
             /\ (a[1] = 0) = (a[2] = << >>)
             /\ a[2] # << >> => a[2][Len(a[2])] # 0

(* q is the quotient of a by n # 0, rounded towards zero *)
IsQuot(a, n, q) == LET r == Sub(a, Mul(q, n)) IN
                   /\ Lt(Abs(r), Abs(n))
                   /\ r[1] = 0 \/ r[1] = a[1]
(* q is the quotient rounded down, for n > 0 *)
IsFloor(a, n, q) == LET r == Sub(a, Mul(q, n)) IN r[1] >= 0 /\ Lt(r, n)
=============================================================================
