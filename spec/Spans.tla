------------------------------- MODULE Spans -------------------------------
(***************************************************************************)
(* Numeric windows: finite unions of intervals of integers (ticks), some of *)
(* them unbounded.  A window is the canonical list of its parts <<lo, hi>>, *)
(* with -OO and OO standing for the missing bounds; all finite numbers stay *)
(* far below OO.  This is where windows are moved and stretched.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

OO == 1000000
With(v, Op(_)) == CHOOSE r \in {Op(x) : x \in {v}} : TRUE

Fin(x) == x # OO /\ x # -OO
MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b
Least(S)    == CHOOSE x \in S : \A y \in S : x <= y

(* ---------------------------- representation --------------------------- *)

Sound(q) == q[1] <= q[2] /\ q[1] < OO /\ q[2] > -OO
CanonList(p) == /\ \A i \in 1 .. Len(p) : Sound(p[i])
                /\ \A i \in 1 .. Len(p) - 1 : p[i][2] + 1 < p[i+1][1]
Pairs(p) == {p[i] : i \in 1 .. Len(p)}

In(x, S) == \E q \in S : q[1] <= x /\ x <= q[2]
\* the canonical list of a finite set of (possibly touching or overlapping) parts
NormSet(S) ==
    LET starts == {a \in {q[1] : q \in S} : a = -OO \/ ~ In(a - 1, S)}
        ends   == {b \in {q[2] : q \in S} : b = OO \/ ~ In(b + 1, S)}
    IN SetToSortSeq({<<a, Least({b \in ends : b >= a})>> : a \in starts}, LAMBDA x, y : x[1] < y[1])
Norm(S) == With({q \in S : Sound(q)}, NormSet)

All   == <<<<-OO, OO>>>>
None  == << >>

(* ------------------------------ set algebra ---------------------------- *)

Cap(A, B) == Norm({<<MaxOf(a[1], b[1]), MinOf(a[2], b[2])>> : a \in Pairs(A), b \in Pairs(B)})
Cup(A, B) == Norm(Pairs(A) \cup Pairs(B))
Neg(A)    == Norm({<<-a[2], -a[1]>> : a \in Pairs(A)})
Compl(A)  == \* the gaps of a canonical list
    LET n == Len(A) IN
    IF n = 0 THEN All
    ELSE Norm({<<IF i = 0 THEN -OO ELSE IF A[i][2] = OO THEN OO ELSE A[i][2] + 1,
                 IF i = n THEN OO ELSE IF A[i+1][1] = -OO THEN -OO ELSE A[i+1][1] - 1>> : i \in 0 .. n})

(* ------------------------------ translation ---------------------------- *)

AddLo(a, b) == IF a = -OO \/ b = -OO THEN -OO ELSE a + b
AddHi(a, b) == IF a = OO \/ b = OO THEN OO ELSE a + b
\* Minkowski sum and difference
Sum(A, B)  == Norm({<<AddLo(a[1], b[1]), AddHi(a[2], b[2])>> : a \in Pairs(A), b \in Pairs(B)})
Diff(A, B) == Sum(A, Neg(B))

(* -------------------------------- scaling ------------------------------ *)

Sgn(k) == IF k > 0 THEN 1 ELSE IF k < 0 THEN -1 ELSE 0
Abs(k) == IF k < 0 THEN -k ELSE k
Times(x, k) == IF ~Fin(x) THEN (IF Sgn(x) * Sgn(k) > 0 THEN OO ELSE IF Sgn(x) * Sgn(k) < 0 THEN -OO ELSE 0) ELSE x * k
\* quotient rounded towards zero
Quot(x, k) == IF ~Fin(x) THEN Times(x, k) ELSE Sgn(x) * Sgn(k) * (Abs(x) \div Abs(k))
Ordered(a, b) == IF a <= b THEN <<a, b>> ELSE <<b, a>>
Mul(A, k) == IF A = None THEN None ELSE IF k = 0 THEN <<<<0, 0>>>>
             ELSE Norm({Ordered(Times(a[1], k), Times(a[2], k)) : a \in Pairs(A)})
Div(A, k) == Norm({Ordered(Quot(a[1], k), Quot(a[2], k)) : a \in Pairs(A)})
\* by the fraction p/q, when every bound scales to an integer
Exact(A, p, q) == \A a \in Pairs(A) : \A i \in 1 .. 2 : Fin(a[i]) => Abs(a[i] * p) % Abs(q) = 0
MulQ(A, p, q) == IF A = None THEN None ELSE IF p = 0 THEN <<<<0, 0>>>>
                 ELSE Norm({Ordered(IF Fin(a[1]) THEN Quot(a[1] * p, q) ELSE Times(a[1], p * q),
                                    IF Fin(a[2]) THEN Quot(a[2] * p, q) ELSE Times(a[2], p * q)) : a \in Pairs(A)})

\* dividing by the fraction p/q
DivQ(A, p, q) == MulQ(A, q, p)

(* ------------------------------ derived forms -------------------------- *)

\* the interval [c-r, c+r]; growing an interval by r on both sides
Around(c, r)   == IF r < 0 THEN None ELSE <<<<c - r, c + r>>>>
Grow(A, r)     == IF A = None THEN None ELSE Norm({<<AddLo(A[1][1], -r), AddHi(A[1][2], r)>>})
Length(A)      == IF A = None THEN 0 ELSE
                  IF A[1][1] = -OO \/ A[Len(A)][2] = OO THEN OO ELSE A[Len(A)][2] - A[1][1]

(* ------------------------------ lazy chains ---------------------------- *)

Excl(A, B) == Cap(A, Compl(B))
\* adaptors: every k-th part; leading parts that start before t dropped or kept; parts long enough
EveryK(A, k) == [i \in 1 .. ((Len(A) + k - 1) \div k) |-> A[(i - 1) * k + 1]]
Early(A, t) == Cardinality({i \in 1 .. Len(A) : \A j \in 1 .. i : A[j][1] < t})
LongOnes(A, n) == SelectSeq(A, LAMBDA q : ~Fin(q[1]) \/ ~Fin(q[2]) \/ q[2] - q[1] >= n)
\* postfix expressions over windows
ApplyTok(st, c) ==
    LET n == Len(st) IN
    CASE c.k = "w" -> Append(st, c.w)
      [] c.k = "c" -> Append(SubSeq(st, 1, n - 1), Compl(st[n]))
      [] c.k = "t" -> Append(SubSeq(st, 1, n - 1), Sum(st[n], <<<<c.v, c.v>>>>))
      [] c.k = "m" -> Append(SubSeq(st, 1, n - 1), Sum(st[n], c.w))
      [] c.k = "s" -> Append(SubSeq(st, 1, n - 1), Mul(st[n], c.v))
      [] c.k = "h" -> Append(SubSeq(st, 1, n - 1), SubSeq(st[n], 1, MinOf(c.v, Len(st[n]))))
      [] c.k = "d" -> Append(SubSeq(st, 1, n - 1), SubSeq(st[n], c.v + 1, Len(st[n])))
      [] c.k = "e" -> Append(SubSeq(st, 1, n - 1), EveryK(st[n], c.v))
      [] c.k = "tw" -> Append(SubSeq(st, 1, n - 1), SubSeq(st[n], 1, Early(st[n], c.v)))
      [] c.k = "sw" -> Append(SubSeq(st, 1, n - 1), SubSeq(st[n], Early(st[n], c.v) + 1, Len(st[n])))
      [] c.k = "fl" -> Append(SubSeq(st, 1, n - 1), LongOnes(st[n], c.v))
      [] c.k \in {"pk", "in"} -> st
      [] c.k = "u" -> Append(SubSeq(st, 1, n - 2), Cup(st[n-1], st[n]))
      [] c.k = "i" -> Append(SubSeq(st, 1, n - 2), Cap(st[n-1], st[n]))
      [] c.k = "x" -> Append(SubSeq(st, 1, n - 2), Excl(st[n-1], st[n]))
EvalChain(c) == With(FoldLeft(ApplyTok, << >>, c), LAMBDA st : st[1])
=============================================================================
