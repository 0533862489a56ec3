------------------------------ MODULE Numbers ------------------------------
(* Time points: wide integers in -MAX .. MAX, where MAX stands for +oo and   *)
(* -MAX for -oo.  One value is the state; every arithmetic, scaling,         *)
(* rounding and conversion operation of the library is a transition on it.   *)
EXTENDS Wide

CONSTANTS MAX,      \* the infinite value (wide)
          SUB       \* ticks per second (wide)

NMAX == Neg(MAX)
TimeValues(v) == IsWide(v) /\ Le(Abs(v), MAX)
Finite(v) == Lt(Abs(v), MAX)
FutInf(v) == v = MAX
PastInf(v) == v = NMAX
Sat(x) == IF Le(MAX, x) THEN MAX ELSE IF Le(x, NMAX) THEN NMAX ELSE x

(* ------------------------------ arithmetic ----------------------------- *)
Opposite(a, b) == (FutInf(a) /\ PastInf(b)) \/ (PastInf(a) /\ FutInf(b))
Plus(a, b) == IF ~Finite(a) THEN a ELSE IF ~Finite(b) THEN b ELSE Sat(Add(a, b))
Minus(a, b) == Plus(a, Neg(b))
After(a) == IF Finite(a) THEN Add(a, W(1)) ELSE a
JustBefore(a) == IF Finite(a) THEN Sub(a, W(1)) ELSE a

(* from any number of ticks *)
Ticks(n) == Sat(n)

(* ------------------------------- scaling ------------------------------- *)
\* oo times zero is zero; any other product of an infinite is infinite
Times(a, n) == IF Finite(a) \/ n[1] = 0 THEN Sat(Mul(a, n)) ELSE <<a[1] * n[1], MAX[2]>>
\* r is the quotient of a by n # 0
OverOK(a, n, r) == IF Finite(a) THEN IsQuot(a, n, r) ELSE r = <<a[1] * n[1], MAX[2]>>

(* by the float n/d, where the product is an integer or out of range *)
FloatOK(a, n, d, r) ==
    IF ~Finite(a) THEN r = IF n[1] = 0 THEN Zero ELSE <<a[1] * n[1], MAX[2]>>
    ELSE IF Le(Mul(Add(MAX, W(1)), Abs(d)), Abs(Mul(a, n))) THEN r = <<a[1] * n[1] * d[1], MAX[2]>>
    ELSE Mul(r, d) = Mul(a, n)

(* ------------------------------- rounding ------------------------------ *)
(* w is a witness: the quotient of a by p rounded down (checked, not trusted) *)
Down(a, p, w) == Mul(w, p)
Up(a, p, w) == IF Mul(w, p) = a THEN a ELSE Mul(Add(w, W(1)), p)

(* -------------------------------- units -------------------------------- *)
(* a unit is num/den seconds *)
Year == Mul(W(146097), W(24 * 9))              \* 146097*24*3600/400
UnitNum(u) ==
    CASE u = "years"  -> Year
      [] u = "months" -> W(2629746)            \* a twelfth of a year
      [] u = "weeks"  -> W(7 * 24 * 3600)
      [] u = "days"   -> W(24 * 3600)
      [] u = "hours"  -> W(3600)
      [] u = "mins"   -> W(60)
      [] OTHER        -> W(1)
UnitDen(u) ==
    CASE u = "millis" -> W(1000)
      [] u = "micros" -> W(1000000)
      [] u = "nanos"  -> W(1000000000)
      [] u = "ticks"  -> SUB
      [] OTHER        -> W(1)
Units == {"years", "months", "weeks", "days", "hours", "mins", "secs", "millis", "micros", "nanos", "ticks"}
(* r is n units: the exact count of ticks rounded towards zero, saturated. *)
UnitOK(u, n, r) ==
    LET x == Mul(Mul(n, UnitNum(u)), SUB)
        d == UnitDen(u) IN
    IF Le(Mul(MAX, d), Abs(x)) THEN r = <<n[1], MAX[2]>>
    ELSE IsQuot(x, d, r)
(* truncation to a unit of t ticks: multiple w*t next to a towards zero *)
TruncOK(a, t, w) == IsQuot(a, t, w)

(* readings: whole seconds (downwards) and the part below *)
Billion == W(1000000000)
ReadOK(a, s, ms, us, ns) ==
    /\ IsFloor(a, SUB, s)
    /\ Le(Zero, ns) /\ Lt(ns, Billion)
    /\ IsFloor(ns, W(1000), us)
    /\ IsFloor(ns, W(1000000), ms)
    \* s seconds and ns nanoseconds are within one nanosecond of a
    /\ Le(Abs(Sub(Mul(a, Billion), Mul(SUB, Add(Mul(s, Billion), ns)))), SUB)

(* conversions: a (ticks) and n (nanoseconds) denote instants less than two nanoseconds apart *)
Near(a, n) == Lt(Abs(Sub(Mul(a, Billion), Mul(n, SUB))), Mul(W(2), SUB))
\* ticks from an external number of nanoseconds, possibly out of range
FromOutOK(n, r) ==
    LET x == Mul(n, SUB)      \* in 1/10^9 ticks
        slack == Mul(W(2), SUB) IN
    IF Lt(Add(Mul(MAX, Billion), slack), Abs(x)) THEN r = <<n[1], MAX[2]>>
    ELSE Near(r, n)

(* ------------------------------ sequences ------------------------------ *)
(* state of a sequence: next date to give, or "over"; step is signed *)
Over(c) == ~Finite(c)
\* the date k steps further (k a wide natural)
Ahead(c, step, k) == Sat(Add(c, Mul(step, k)))
\* n dates remain from c (included)
RemainOK(c, step, n) == IF ~Finite(c) THEN n = Zero
                        ELSE /\ n[1] > 0
                             /\ Finite(Ahead(c, step, Sub(n, W(1))))
                             /\ ~Finite(Ahead(c, step, n))
=============================================================================
