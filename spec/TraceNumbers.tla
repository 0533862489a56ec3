---------------------------- MODULE TraceNumbers ----------------------------
(* Checks histories of single time values, and of periodic sequences,        *)
(* recorded from the real code against Numbers.                              *)
EXTENDS Numbers, TLC, Json, IOUtils
PROP  == IOEnv.PROP
Hists == ndJsonDeserialize(IOEnv.TRACE)
\* 2^63 - 1 and 2^30, written out (TLC would compute them again and again)
TrMAX == <<1, <<32767, 32767, 32767, 32767, 7>>>>
TrSUB == <<1, <<0, 0, 1>>>>
ASSUME TrMAX = Sub(PowW(2, 63), W(1)) /\ TrSUB = PowW(2, 30)

VARIABLES v, h, l, ok
tvars == <<v, h, l, ok>>

PropOf(e) ==
    CASE e.o \in {"add", "sub", "sum", "neg", "after", "before", "class", "cmp", "ticks"} -> "C13"
      [] e.o \in {"mul", "div", "mulf", "divf"} -> "C14"
      [] e.o \in {"floor", "ceil"} -> "C15"
      [] e.o \in {"unit", "trunc", "read"} -> "C16"
      [] e.o \in {"chrono", "std", "date", "loop", "mono", "fromout", "monoout", "now"} -> "C17"
      [] OTHER -> "C18"

B(b) == IF b THEN 1 ELSE 0
ClassOf(a) == <<B(Finite(a)), B(FutInf(a)), B(PastInf(a)), B(a[1] = 0), B(a[1] >= 0), B(a[1] <= 0), B(a[1] > 0), B(a[1] < 0)>>
CmpOf(a, b) == LET c == Cmp(a, b) IN <<c, c, B(c < 0), B(c <= 0), B(c > 0), B(c >= 0), B(c = 0), 1, 1>>

UnitTicks(u) == CASE u = "nanos"  -> W(1)
                  [] u = "ticks"  -> W(1)
                  [] u = "micros" -> W(1073)
                  [] u = "millis" -> W(1073741)
                  [] OTHER        -> Mul(UnitNum(u), TrSUB)
ASSUME \A u \in Units : IsQuot(Mul(UnitNum(u), TrSUB), UnitDen(u), UnitTicks(u))

\* summing in order: the running total, and whether opposite infinities met
RECURSIVE SumFrom(_, _, _)
SumFrom(s, i, acc) == IF i > Len(s) THEN <<acc>>
                      ELSE IF Opposite(acc, s[i]) THEN << >> ELSE SumFrom(s, i + 1, Plus(acc, s[i]))
SumOf(s) == SumFrom(s, 1, Zero)

(* the code must refuse: every form panics *)
Refuses(e) == \/ e.o = "add" /\ Opposite(e.a, e.b)
              \/ e.o = "sub" /\ Opposite(e.a, Neg(e.b))
              \/ e.o = "sum" /\ SumOf(e.l) = << >>

\* the witness that comes with an event is itself checked
ValueOK(e, r) ==
    CASE e.o = "add"    -> r = Plus(e.a, e.b)
      [] e.o = "sub"    -> r = Minus(e.a, e.b)
      [] e.o = "sum"    -> <<r>> = SumOf(e.l)
      [] e.o = "neg"    -> r = Neg(e.a)
      [] e.o = "after"  -> r = After(e.a)
      [] e.o = "before" -> r = JustBefore(e.a)
      [] e.o = "ticks"  -> r = Ticks(e.a)
      [] e.o = "class"  -> r = ClassOf(e.a)
      [] e.o = "cmp"    -> r = CmpOf(e.a, e.b)
      [] e.o = "mul"    -> r = Times(e.a, e.b)
      [] e.o = "div"    -> IsWide(r) /\ OverOK(e.a, e.b, r)
      [] e.o = "mulf"   -> IsWide(r) /\ FloatOK(e.a, e.b, e.d, r)
      [] e.o = "divf"   -> IsWide(r) /\ FloatOK(e.a, IF e.b[1] < 0 THEN Neg(e.d) ELSE e.d, Abs(e.b), r)
      [] e.o = "floor"  -> Assert(IsFloor(e.a, e.b, e.w), "witness") /\ r = Down(e.a, e.b, e.w)
      [] e.o = "ceil"   -> Assert(IsFloor(e.a, e.b, e.w), "witness") /\ r = Up(e.a, e.b, e.w)
      [] e.o = "unit"   -> TimeValues(r) /\ UnitOK(e.k, e.b, r)
      [] e.o = "trunc"  -> Assert(TruncOK(e.a, UnitTicks(e.k), e.w), "witness") /\ r = Mul(e.w, UnitTicks(e.k))
      [] e.o = "read"   -> ReadOK(e.a, r[1], r[2], r[3], r[4])
      [] e.o \in {"chrono", "std", "date"} -> Near(e.a, r)
      [] e.o = "loop"   -> Lt(Mul(Abs(Sub(r, e.a)), Billion), Mul(W(2), SUB))
      [] e.o = "mono"   -> Cmp(e.a, e.b) * r >= 0
      [] e.o = "monoout" -> r <= 0
      \* the clock of the machine was in lo..hi; elapsed is the distance to it
      [] e.o = "now"    -> /\ Le(e.lo, r) /\ Le(r, e.hi)
                           /\ Len(e.el) = 1 /\ Le(Minus(e.lo, e.a), e.el[1]) /\ Le(e.el[1], Minus(e.hi, e.a))
      [] e.o = "fromout" -> TimeValues(r) /\ FromOutOK(e.b, r)

ValueEvent(e) == PROP = PropOf(e) =>
    IF Refuses(e) THEN e.x = e.n
    ELSE e.x = 0 /\ \A i \in 1 .. Len(e.r) : ValueOK(e, e.r[i])

(* the value carried on: whatever the code answered, when it answered one value *)
Carried(e) == e.o \in {"add", "sub", "neg", "after", "before", "mul", "div", "mulf", "divf", "floor", "ceil", "trunc"} /\ e.x = 0 /\ Len(e.r) = 1 

(* ------------------------------ sequences ------------------------------ *)
(* v: the next date to give, saturated: an infinite one means it is over    *)
StepOf(H) == IF H.d = 1 THEN H.p ELSE Neg(H.p)
First(H) == IF H.al = 1 THEN Up(H.t, H.p, H.w) ELSE H.t
Give(c) == IF Over(c) THEN << >> ELSE <<c>>
SeqValue(H, e, r) ==
    CASE e.o = "next" -> r = Give(v)
      [] e.o = "nth"  -> r = IF Over(v) THEN << >> ELSE Give(Ahead(v, StepOf(H), e.b))
      [] e.o = "hint" -> RemainOK(v, StepOf(H), r[1]) /\ r[2] = r[1]
      [] e.o = "count" -> RemainOK(v, StepOf(H), r)
      [] e.o = "last" -> IF Over(v) THEN r = << >>
                         ELSE /\ Len(r) = 1 /\ Finite(r[1]) /\ Over(Ahead(r[1], StepOf(H), W(1)))
                              \* a whole number of steps from v (the witness q)
                              /\ r[1] = Ahead(v, StepOf(H), e.q)
      [] e.o = "look" -> r = <<Give(v), IF Over(v) THEN << >> ELSE Give(Ahead(v, StepOf(H), W(1)))>>
SeqEvent(H, e) ==
    IF e.o = "start" THEN
        \* the date before the first one is out of range: starting may be refused
        e.x = 0 \/ Over(Plus(First(H), Neg(StepOf(H))))
    ELSE e.x = 0 /\ \A i \in 1 .. Len(e.r) : SeqValue(H, e, e.r[i])
SeqNextState(H, e) ==
    CASE e.o = "next" -> IF Over(v) THEN v ELSE Ahead(v, StepOf(H), W(1))
      [] e.o = "nth"  -> IF Over(v) THEN v ELSE Ahead(v, StepOf(H), Add(e.b, W(1)))
      [] OTHER        -> v

IsSeq(H) == H.k = "seq"
TInit == /\ h \in 1 .. Len(Hists) /\ l = 1 /\ ok = TRUE
         /\ v = IF IsSeq(Hists[h]) THEN First(Hists[h]) ELSE Hists[h].e[1].a
TNext == /\ ok /\ l <= Len(Hists[h].e)
         /\ LET e == Hists[h].e[l] IN
              IF IsSeq(Hists[h])
              THEN /\ ok' = (PROP # "C18" \/ SeqEvent(Hists[h], e))
                   /\ v' = SeqNextState(Hists[h], e)
              ELSE /\ ok' = (ValueEvent(e) /\ (l > 1 => e.a = v))
                   /\ v' = IF Carried(e) THEN e.r[1] ELSE v
         /\ l' = l + 1 /\ h' = h
TSpec == TInit /\ [][TNext]_tvars
TraceOK == ok
=============================================================================
