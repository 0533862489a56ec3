-------------------------- MODULE TraceBigWindows --------------------------
(* Checks histories of windows at any magnitude against BigWindows.         *)
EXTENDS BigWindows, Json, IOUtils
PROP  == IOEnv.PROP
Hists == ndJsonDeserialize(IOEnv.TRACE)
TrMAX == <<1, <<32767, 32767, 32767, 32767, 7>>>>
TrSUB == <<1, <<0, 0, 1>>>>
ASSUME TrMAX = Sub(PowW(2, 63), W(1))

VARIABLES w, h, l, ok
tvars == <<w, h, l, ok>>

PropOf(e) ==
    CASE e.o = "union" -> {"C01", "C02"}
      [] e.o = "inter" -> {"C01", "C03"}
      [] e.o \in {"compl", "compl2", "excl"} -> {"C01", "C04"}
      [] e.o \in {"lazy", "jump", "chain"} -> {"C05"}
      [] e.o \in {"tb", "ta"} -> {"C01", "C06"}
      [] e.o \in {"has", "ov", "eq"} -> {"C07"}
      [] e.o \in {"shape", "len"} -> {"C08"}
      [] e.o = "ord" -> {"C09"}
      [] e.o \in {"build", "collect", "around", "grow"} -> {"C01", "C10"}
      [] e.o \in {"sum", "diff", "neg"} -> {"C01", "C11"}
      [] e.o \in {"mul", "div"} -> {"C01", "C12"}

B(b) == IF b THEN 1 ELSE 0
(* what the properties speak about: results inside the range, finite arguments *)
InScope(e) ==
    CASE e.o = "sum"  -> SumInside(e.a, e.b)
      [] e.o = "diff" -> SumInside(e.a, Opp(e.b))
      [] e.o = "mul"  -> MulInside(e.a, e.k)
      [] e.o \in {"lazy", "chain"} -> Eval(e.c)[2]
      [] OTHER -> TRUE
Sets == {"union", "inter", "excl", "compl", "compl2", "collect", "build", "around", "grow", "sum", "diff", "neg", "mul", "div"}
Expected(e) ==
    CASE e.o = "union"  -> Cup(e.a, e.b)
      [] e.o = "inter"  -> Cap(e.a, e.b)
      [] e.o = "excl"   -> Excl(e.a, e.b)
      [] e.o = "compl"  -> Compl(e.a)
      [] e.o = "compl2" -> e.a
      [] e.o = "tb"     -> CutBefore(e.a, e.k)
      [] e.o = "ta"     -> CutAfter(e.a, e.k)
      [] e.o = "collect" -> NormAll(UNION {Pairs(e.l[i]) : i \in 1 .. Len(e.l)})
      [] e.o = "build"  -> Build(e.kind, e.k, e.q)
      [] e.o = "around" -> Around(e.k, e.q)
      [] e.o = "grow"   -> Grow(e.a, e.k)
      [] e.o = "sum"    -> Sum(e.a, e.b)
      [] e.o = "diff"   -> Sum(e.a, Opp(e.b))
      [] e.o = "neg"    -> Opp(e.a)
      [] e.o = "mul"    -> Scale(e.a, e.k)
      [] e.o = "div"    -> Divide(e.a, e.k, e.w)
      [] e.o \in {"lazy", "chain"} -> Eval(e.c)[1]
      [] e.o = "len"    -> Length(e.a)
      [] OTHER -> << >>

(* where the extreme instants make two readings possible (a bound on the    *)
(* greatest instant or none), both are accepted                             *)
Either(r, a, b) == r = a \/ r = b
Fives(A, C, eq) == <<B(Before(A, C)), B(Before(C, A)), B(Before(A, C) \/ eq), B(Before(C, A) \/ eq),
                     IF Before(A, C) THEN -1 ELSE IF Before(C, A) THEN 1 ELSE IF eq THEN 0 ELSE 2>>
ShapeOK(r, A) ==
    LET n == Len(A) IN
    /\ r.em = B(n = 0) /\ r.cn = n /\ r.cv = B(n <= 1)
    /\ Either(r.si, B(Singleton(A)), B(n = 1 /\ MaxW(A[1][1], BOT) = MinW(A[1][2], TOP)))
    /\ Either(r.al, B(A = All), B(Same(A, All)))
    /\ r.lb = B(n > 0 /\ Finite(A[1][1])) /\ r.ub = B(n > 0 /\ Finite(A[n][2])) /\ r.bd = B(n > 0 /\ Finite(A[1][1]) /\ Finite(A[n][2]))
    /\ n > 0 => r.lo = A[1][1] /\ r.up = A[n][2] /\ r.en = <<<<A[1][1], A[n][2]>>>>
    /\ n = 0 => r.en = << >>
LazyOK(r, A) ==
    /\ Canon(r.p) /\ Same(r.p, A)
    /\ r.t = 0
    /\ Len(r.s) = Len(r.p) + 1
    /\ \A i \in 1 .. Len(r.s) : LET left == Len(r.p) + 1 - i IN r.s[i][1] <= left /\ (r.s[i][2] = -1 \/ left <= r.s[i][2])

OutcomeOK(e, r, ex) ==
    CASE PROP = "C01" -> IF e.o \in {"tb", "ta"} THEN Canon(r.p) ELSE Canon(r)
      [] e.o \in Sets -> Canon(r) /\ Same(r, ex)
      [] e.o \in {"tb", "ta"} -> /\ Canon(r.p) /\ Same(r.p, ex)
                                 /\ Either(r.c, B(ex # e.a), B(~Same(ex, e.a)))
      [] e.o = "has" -> Either(r, B(Has(e.a, e.b)), B(Has(Snap(e.a), Snap(e.b))))
      [] e.o = "ov"  -> r = B(Overlap(e.a, e.b))
      [] e.o = "eq"  -> Either(r, B(e.a = e.b), B(Same(e.a, e.b)))
      [] e.o = "ord" -> Either(r, Fives(e.a, e.b, e.a = e.b), Fives(e.a, e.b, Same(e.a, e.b)))
      [] e.o = "shape" -> ShapeOK(r, e.a)
      [] e.o \in {"lazy", "chain"} -> LazyOK(r, ex)
      [] e.o = "len" -> r = ex
EventOK(e) == PROP \in PropOf(e) /\ InScope(e) =>
                 /\ e.x = 0
                 /\ e.o = "div" => Assert(QuotOK(e.a, e.k, e.w), "witness")
                 /\ \E ex \in {Expected(e)} : \A i \in 1 .. Len(e.r) : OutcomeOK(e, e.r[i], ex)
HasA(e) == e.o \notin {"build", "collect", "lazy", "chain", "around"}
Moving == {"union", "inter", "excl", "compl", "sum", "diff", "neg", "mul", "div"}
\* the next operand is what the code gave
Carried(e) == IF Len(e.r) = 0 THEN w ELSE IF e.o \in Moving THEN e.r[1] ELSE IF e.o \in {"tb", "ta"} THEN e.r[1].p ELSE w
Starts(H) == {i \in 1 .. Len(H.e) : HasA(H.e[i])}
TInit == /\ h \in 1 .. Len(Hists) /\ l = 1 /\ ok = TRUE
         /\ w = IF Starts(Hists[h]) = {} THEN << >> ELSE Hists[h].e[CHOOSE i \in Starts(Hists[h]) : \A j \in Starts(Hists[h]) : i <= j].a
TNext == /\ ok /\ l <= Len(Hists[h].e)
         /\ \E e \in {Hists[h].e[l]} :
              /\ ok' = (EventOK(e) /\ (HasA(e) => Canon(e.a) /\ e.a = w))
              /\ w' = Carried(e)
         /\ l' = l + 1 /\ h' = h
TSpec == TInit /\ [][TNext]_tvars
TraceOK == ok
=============================================================================
