---------------------------- MODULE BigWindows ----------------------------
(* Windows at any magnitude: a window is the canonical list of its parts    *)
(* <<lo, hi>>, the bounds being time values (wide integers) up to and       *)
(* including the limits of the representable range.  The instants are the   *)
(* finite time values; a bound which is infinite is a missing bound.        *)
(* Windows (over abstract atoms) and Spans (over small integers) say what   *)
(* the operations mean; here the same operations are computed on bounds.    *)
EXTENDS Numbers, TLC

TOP == Sub(MAX, W(1))        \* the greatest instant
BOT == Neg(TOP)
With(v, Op(_)) == CHOOSE r \in {Op(x) : x \in {v}} : TRUE

MaxW(a, b) == IF Le(a, b) THEN b ELSE a
MinW(a, b) == IF Le(a, b) THEN a ELSE b
Sound(p) == Le(p[1], p[2]) /\ p[1] # MAX /\ p[2] # NMAX
Canon(A) == /\ \A i \in 1 .. Len(A) : TimeValues(A[i][1]) /\ TimeValues(A[i][2]) /\ Sound(A[i])
            /\ \A i \in 1 .. Len(A) - 1 : Lt(A[i][2], A[i+1][1]) /\ Lt(After(A[i][2]), A[i+1][1])
Pairs(A) == {A[i] : i \in 1 .. Len(A)}
All  == <<<<NMAX, MAX>>>>
None == << >>

(* the canonical list of a set of parts, touching or overlapping ones merged *)
Absorb(acc, p) ==
    IF acc = << >> THEN <<p>>
    ELSE LET q == acc[Len(acc)] IN
         IF Lt(After(q[2]), p[1]) THEN Append(acc, p)
         ELSE Append(SubSeq(acc, 1, Len(acc) - 1), <<q[1], MaxW(q[2], p[2])>>)
\* (one part per lower bound)
Hull(S) == {<<a, CHOOSE b \in {p[2] : p \in {q \in S : q[1] = a}} : \A p \in S : p[1] = a => Le(p[2], b)>> : a \in {p[1] : p \in S}}
NormSound(S) == FoldLeft(Absorb, << >>, SetToSortSeq(Hull(S), LAMBDA x, y : Lt(x[1], y[1])))
NormAll(S) == With({p \in S : Sound(p)}, NormSound)

(* bounds on the greatest (least) instant and missing bounds hold the same instants *)
SnapPart(p) == <<IF p[1] = BOT THEN NMAX ELSE p[1], IF p[2] = TOP THEN MAX ELSE p[2]>>
Snap(A) == [i \in 1 .. Len(A) |-> SnapPart(A[i])]
Same(A, B) == Snap(A) = Snap(B)

(* ------------------------------ set algebra ---------------------------- *)
Cup(A, B) == NormAll(Pairs(A) \cup Pairs(B))
Cap(A, B) == NormAll({<<MaxW(a[1], b[1]), MinW(a[2], b[2])>> : a \in Pairs(A), b \in Pairs(B)})
Compl(A) ==
    LET n == Len(A) IN
    IF n = 0 THEN All
    ELSE NormAll({<<IF i = 0 THEN NMAX ELSE IF Finite(A[i][2]) THEN Add(A[i][2], W(1)) ELSE MAX,
                    IF i = n THEN MAX ELSE IF Finite(A[i+1][1]) THEN Sub(A[i+1][1], W(1)) ELSE NMAX>> : i \in 0 .. n})
Excl(A, B) == Cap(A, Compl(B))
CutBefore(A, t) == Cap(A, <<<<t, MAX>>>>)
CutAfter(A, t) == Cap(A, <<<<NMAX, t>>>>)

Has(A, B) == \A b \in Pairs(B) : \E a \in Pairs(A) : Le(a[1], b[1]) /\ Le(b[2], a[2])
Overlap(A, B) == Cap(A, B) # None
Before(A, B) == Lt(A[Len(A)][2], B[1][1])        \* of non-empty windows
Singleton(A) == Len(A) = 1 /\ A[1][1] = A[1][2]

(* ------------------------------ translation ---------------------------- *)
AddLo(a, b) == IF ~Finite(a) \/ ~Finite(b) THEN NMAX ELSE Add(a, b)
AddHi(a, b) == IF ~Finite(a) \/ ~Finite(b) THEN MAX ELSE Add(a, b)
Opp(A) == [i \in 1 .. Len(A) |-> <<Neg(A[Len(A) + 1 - i][2]), Neg(A[Len(A) + 1 - i][1])>>]
\* what is added stays inside the range
SumInside(A, B) == \A a \in Pairs(A), b \in Pairs(B) :
                      /\ Finite(a[1]) /\ Finite(b[1]) => Finite(Add(a[1], b[1]))
                      /\ Finite(a[2]) /\ Finite(b[2]) => Finite(Add(a[2], b[2]))
Sum(A, B) == NormAll({<<AddLo(a[1], b[1]), AddHi(a[2], b[2])>> : a \in Pairs(A), b \in Pairs(B)})

(* -------------------------------- scaling ------------------------------ *)
Ordered(a, b) == IF Le(a, b) THEN <<a, b>> ELSE <<b, a>>
MulInside(A, k) == \A a \in Pairs(A) : \A i \in {1, 2} : Finite(a[i]) => Finite(Mul(a[i], k))
Scale(A, k) == IF A = None THEN None ELSE IF k[1] = 0 THEN <<<<Zero, Zero>>>>
               ELSE NormAll({Ordered(Times(a[1], k), Times(a[2], k)) : a \in Pairs(A)})
\* q lists the quotients of the bounds (checked)
QuotOK(A, k, q) == Len(q) = Len(A) /\ \A i \in 1 .. Len(A) : \A j \in {1, 2} : OverOK(A[i][j], k, q[i][j])
Divide(A, k, q) == NormAll({Ordered(q[i][1], q[i][2]) : i \in 1 .. Len(A)})

(* ------------------------------- building ------------------------------ *)
One(a, b) == IF Sound(<<a, b>>) THEN <<<<a, b>>>> ELSE None
Build(k, a, b) ==
    CASE k = "new"    -> One(a, b)
      [] k = "single" -> One(a, a)
      [] k = "after"  -> One(a, MAX)
      [] k = "before" -> One(NMAX, a)
      [] k = "all"    -> All
      [] k = "empty"  -> None
      [] k = "a..b"   -> IF Lt(a, b) THEN One(a, JustBefore(b)) ELSE None
      [] k = "a..=b"  -> One(a, b)
      [] k = "a.."    -> One(a, MAX)
      [] k = "..b"    -> One(NMAX, JustBefore(b))
      [] k = "..=b"   -> One(NMAX, b)
Builders == {"new", "single", "after", "before", "all", "empty", "a..b", "a..=b", "a..", "..b", "..=b"}
\* within r of c, cut at the limits; grown by r on both sides
Around(c, r) == IF r[1] < 0 THEN None ELSE One(Minus(c, r), Plus(c, r))
Grow(A, r) == IF A = None THEN None ELSE One(Minus(A[1][1], r), Plus(A[1][2], r))
Length(A) == IF A = None THEN Zero ELSE Minus(A[Len(A)][2], A[1][1])

(* ----------------------------- lazy chains ----------------------------- *)
(* postfix; a stack of <<window, whether everything stayed inside the range>> *)
Apply(st, c) ==
    LET n == Len(st)
        drop(k) == SubSeq(st, 1, n - k)
        one(v, fine) == Append(drop(1), <<v, st[n][2] /\ fine>>)
        two(v) == Append(drop(2), <<v, st[n-1][2] /\ st[n][2]>>) IN
    IF c.k = "w" THEN Append(st, <<c.w, TRUE>>)
    ELSE IF ~st[n][2] THEN IF c.k \in {"u", "i", "x"} THEN Append(drop(2), st[n]) ELSE st
    ELSE CASE c.k = "c" -> one(Compl(st[n][1]), TRUE)
           [] c.k = "t" -> IF SumInside(st[n][1], <<<<c.v, c.v>>>>) THEN one(Sum(st[n][1], <<<<c.v, c.v>>>>), TRUE) ELSE one(None, FALSE)
           [] c.k = "m" -> IF SumInside(st[n][1], c.w) THEN one(Sum(st[n][1], c.w), TRUE) ELSE one(None, FALSE)
           [] c.k = "s" -> IF MulInside(st[n][1], c.v) THEN one(Scale(st[n][1], c.v), TRUE) ELSE one(None, FALSE)
           [] c.k = "u" -> two(Cup(st[n-1][1], st[n][1]))
           [] c.k = "i" -> two(Cap(st[n-1][1], st[n][1]))
           [] c.k = "x" -> two(Excl(st[n-1][1], st[n][1]))
Eval(c) == With(FoldLeft(Apply, << >>, c), LAMBDA st : st[1])
=============================================================================
