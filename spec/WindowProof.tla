---------------------------- MODULE WindowProof ----------------------------
(***************************************************************************)
(* Laws of intervals and of lists of parts behind the window operators,     *)
(* proved for all integers (in BigWindows the infinities are the integers   *)
(* next to the range, so that these laws hold for unbounded windows too).   *)
(* A part is a pair of integers, a window a set of parts.                   *)
(***************************************************************************)
EXTENDS Integers, TLAPS

Dates(p) == {t \in Int : p[1] <= t /\ t <= p[2]}
IsPart(p) == p \in Int \X Int /\ p[1] <= p[2]
Window(A) == \A p \in A : IsPart(p)
Instants(A) == {t \in Int : \E p \in A : p[1] <= t /\ t <= p[2]}
\* disjoint, and not even adjacent
Canonical(A) == Window(A) /\ \A p, q \in A : p = q \/ p[2] + 1 < q[1] \/ q[2] + 1 < p[1]
Small(a, b) == IF a <= b THEN a ELSE b
Great(a, b) == IF a <= b THEN b ELSE a

-----------------------------------------------------------------------------
\* the dates of two parts which overlap or touch are those of one part
THEOREM Join ==
    ASSUME NEW a \in Int, NEW b \in Int, NEW c \in Int, NEW d \in Int, a <= b, c <= d, c <= b + 1, a <= d + 1
    PROVE  \A t \in Int : ((a <= t /\ t <= b) \/ (c <= t /\ t <= d)) <=> (Small(a, c) <= t /\ t <= Great(b, d))
  BY DEF Small, Great

\* ... and of two parts which do not are those of no part
THEOREM Apart ==
    ASSUME NEW a \in Int, NEW b \in Int, NEW c \in Int, NEW d \in Int, a <= b, c <= d, b + 1 < c
    PROVE  \A x, y \in Int : ~ \A t \in Int : ((a <= t /\ t <= b) \/ (c <= t /\ t <= d)) <=> (x <= t /\ t <= y)
<1> SUFFICES ASSUME NEW x \in Int, NEW y \in Int,
                    \A t \in Int : ((a <= t /\ t <= b) \/ (c <= t /\ t <= d)) <=> (x <= t /\ t <= y)
             PROVE  FALSE
  OBVIOUS
<1>1. x <= a /\ c <= y
  <2>1. ((a <= a /\ a <= b) \/ (c <= a /\ a <= d)) <=> (x <= a /\ a <= y) OBVIOUS
  <2>2. ((a <= c /\ c <= b) \/ (c <= c /\ c <= d)) <=> (x <= c /\ c <= y) OBVIOUS
  <2> QED BY <2>1, <2>2
<1>2. b + 1 \in Int OBVIOUS
<1>3. ((a <= b + 1 /\ b + 1 <= b) \/ (c <= b + 1 /\ b + 1 <= d)) <=> (x <= b + 1 /\ b + 1 <= y) BY <1>2
<1> QED BY <1>1, <1>3

THEOREM Meet ==
    ASSUME NEW a \in Int, NEW b \in Int, NEW c \in Int, NEW d \in Int
    PROVE  \A t \in Int : ((a <= t /\ t <= b) /\ (c <= t /\ t <= d)) <=> (Great(a, c) <= t /\ t <= Small(b, d))
  BY DEF Small, Great

\* the sums of a date of one part and a duration of another fill a part
THEOREM Minkowski ==
    ASSUME NEW a \in Int, NEW b \in Int, NEW c \in Int, NEW d \in Int, a <= b, c <= d, NEW t \in Int
    PROVE  (\E x, y \in Int : a <= x /\ x <= b /\ c <= y /\ y <= d /\ t = x + y) <=> (a + c <= t /\ t <= b + d)
<1>1. ASSUME a + c <= t, t <= b + d PROVE \E x, y \in Int : a <= x /\ x <= b /\ c <= y /\ y <= d /\ t = x + y
  <2> DEFINE x == Great(a, t - d)
  <2>1. x \in Int /\ a <= x /\ x <= b /\ c <= t - x /\ t - x <= d BY <1>1 DEF Great
  <2>2. t - x \in Int /\ t = x + (t - x) BY <2>1
  <2> HIDE DEF x
  <2> QED BY <2>1, <2>2
<1>2. ASSUME NEW x \in Int, NEW y \in Int, a <= x, x <= b, c <= y, y <= d, t = x + y PROVE a + c <= t /\ t <= b + d
  BY <1>2
<1> QED BY <1>1, <1>2

\* the sums of two windows are the dates of the pairwise sums of their parts
THEOREM SumOfWindows ==
    ASSUME NEW A, NEW B, Window(A), Window(B), NEW t \in Int
    PROVE  (\E x \in Instants(A), y \in Instants(B) : t = x + y)
             <=> (\E p \in A, q \in B : p[1] + q[1] <= t /\ t <= p[2] + q[2])
<1>1. ASSUME NEW x \in Instants(A), NEW y \in Instants(B), t = x + y
      PROVE  \E p \in A, q \in B : p[1] + q[1] <= t /\ t <= p[2] + q[2]
  <2>1. PICK p \in A : p[1] <= x /\ x <= p[2] BY DEF Instants
  <2>2. PICK q \in B : q[1] <= y /\ y <= q[2] BY DEF Instants
  <2>3. p[1] \in Int /\ p[2] \in Int /\ q[1] \in Int /\ q[2] \in Int /\ x \in Int /\ y \in Int BY DEF Window, IsPart, Instants
  <2>4. p[1] + q[1] <= t /\ t <= p[2] + q[2] BY <1>1, <2>1, <2>2, <2>3
  <2> QED BY <2>4
<1>2. ASSUME NEW p \in A, NEW q \in B, p[1] + q[1] <= t, t <= p[2] + q[2]
      PROVE  \E x \in Instants(A), y \in Instants(B) : t = x + y
  <2>1. p[1] \in Int /\ p[2] \in Int /\ q[1] \in Int /\ q[2] \in Int /\ p[1] <= p[2] /\ q[1] <= q[2] BY DEF Window, IsPart
  <2>2. PICK x \in Int, y \in Int : p[1] <= x /\ x <= p[2] /\ q[1] <= y /\ y <= q[2] /\ t = x + y BY <1>2, <2>1, Minkowski
  <2>3. x \in Instants(A) /\ y \in Instants(B) BY <2>2 DEF Instants
  <2> QED BY <2>2, <2>3
<1> QED BY <1>1, <1>2

LEMMA StartOfPart ==
    ASSUME NEW A, Canonical(A), NEW p \in A
    PROVE  /\ p[1] \in Int /\ p[2] \in Int /\ p[1] <= p[2] /\ p = <<p[1], p[2]>>
           /\ p[1] \in Instants(A) /\ p[1] - 1 \notin Instants(A)
           /\ p[2] \in Instants(A) /\ p[2] + 1 \notin Instants(A)
<1>1. p[1] \in Int /\ p[2] \in Int /\ p[1] <= p[2] /\ p = <<p[1], p[2]>> BY DEF Canonical, Window, IsPart
<1>2. p[1] \in Instants(A) /\ p[2] \in Instants(A) BY <1>1 DEF Instants
<1>3. ASSUME NEW q \in A PROVE ~(q[1] <= p[1] - 1 /\ p[1] - 1 <= q[2]) /\ ~(q[1] <= p[2] + 1 /\ p[2] + 1 <= q[2])
  <2>1. q[1] \in Int /\ q[2] \in Int /\ q[1] <= q[2] BY DEF Canonical, Window, IsPart
  <2>2. p = q \/ p[2] + 1 < q[1] \/ q[2] + 1 < p[1] BY DEF Canonical
  <2> QED BY <1>1, <2>1, <2>2
<1> QED BY <1>1, <1>2, <1>3 DEF Instants

LEMMA SamePart ==
    ASSUME NEW A, NEW B, Canonical(A), Canonical(B), Instants(A) = Instants(B), NEW p \in A
    PROVE  p \in B
<1>1. /\ p[1] \in Int /\ p[2] \in Int /\ p[1] <= p[2] /\ p = <<p[1], p[2]>>
      /\ p[1] \in Instants(B) /\ p[1] - 1 \notin Instants(B)
      /\ p[2] \in Instants(B) /\ p[2] + 1 \notin Instants(B)
  BY StartOfPart
<1>2. PICK q \in B : q[1] <= p[1] /\ p[1] <= q[2] BY <1>1 DEF Instants
<1>3. /\ q[1] \in Int /\ q[2] \in Int /\ q[1] <= q[2] /\ q = <<q[1], q[2]>>
      /\ q[1] - 1 \notin Instants(A) /\ q[2] + 1 \notin Instants(A)
  BY <1>2, StartOfPart
<1>4. \A t \in Int : q[1] <= t /\ t <= q[2] => t \in Instants(B) BY <1>2 DEF Instants
<1>5. \A t \in Int : p[1] <= t /\ t <= p[2] => t \in Instants(A) BY DEF Instants
<1>6. q[1] = p[1]
  <2>1. CASE q[1] < p[1]
    <3>1. p[1] - 1 \in Int /\ q[1] <= p[1] - 1 /\ p[1] - 1 <= q[2] BY <1>1, <1>2, <1>3, <2>1
    <3> QED BY <1>1, <1>4, <3>1
  <2> QED BY <1>1, <1>2, <1>3, <2>1
<1>7. ~(q[2] < p[2])
  <2>1. SUFFICES ASSUME q[2] < p[2] PROVE FALSE OBVIOUS
  <2>2. q[2] + 1 \in Int /\ p[1] <= q[2] + 1 /\ q[2] + 1 <= p[2] BY <1>1, <1>2, <1>3, <2>1
  <2> QED BY <1>3, <1>5, <2>2
<1>8. ~(p[2] < q[2])
  <2>1. SUFFICES ASSUME p[2] < q[2] PROVE FALSE OBVIOUS
  <2>2. p[2] + 1 \in Int /\ q[1] <= p[2] + 1 /\ p[2] + 1 <= q[2] BY <1>1, <1>2, <1>3, <1>6, <2>1
  <2> QED BY <1>1, <1>4, <2>2
<1>9. q[2] = p[2] BY <1>1, <1>3, <1>7, <1>8
<1> QED BY <1>1, <1>2, <1>3, <1>6, <1>9

\* canonical windows with the same dates are the same: equality of values is equality of sets of dates
THEOREM CanonicalUnique ==
    ASSUME NEW A, NEW B, Canonical(A), Canonical(B), Instants(A) = Instants(B)
    PROVE  A = B
<1>1. \A p \in A : p \in B BY SamePart
<1>2. \A p \in B : p \in A BY SamePart
<1> QED BY <1>1, <1>2
=============================================================================
