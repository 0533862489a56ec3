---------------------------- MODULE AgendaProof ----------------------------
(***************************************************************************)
(* Why arc consistency decides an agenda: proved for any set of instants,   *)
(* any integer bounds and any windows (the model checker compares with all  *)
(* assignments of two and three instants).  w[i] is the set of dates left   *)
(* to instant i; has / val as in GraphProof.                                *)
(***************************************************************************)
EXTENDS Integers, TLAPS
CONSTANT N

Matrix(has, val) == has \in [N \X N -> BOOLEAN] /\ val \in [N \X N -> Int]
Closed(has, val) ==
    /\ \A i \in N : has[i, i] /\ val[i, i] = 0
    /\ \A i, j, k \in N : has[i, j] /\ has[j, k] => has[i, k] /\ val[i, j] + val[j, k] <= val[i, k]
Sol(has, val, x) == \A i, j \in N : has[i, j] => val[i, j] <= x[j] - x[i]
\* y for instant j goes with x for instant i
Goes(has, val, i, x, j, y) == (has[i, j] => val[i, j] <= y - x) /\ (has[j, i] => val[j, i] <= x - y)
\* every date left has a partner at every other instant
ArcConsistent(has, val, w) == \A i, j \in N : \A x \in w[i] : \E y \in w[j] : Goes(has, val, i, x, j, y)
Windows(w) == w \in [N -> SUBSET Int]
Within(x, w) == \A i \in N : x[i] \in w[i]

-----------------------------------------------------------------------------
\* Nothing lost: the dates which solutions use are arc consistent by themselves, so that the
\* largest arc consistent windows below the requests hold every solution of the requests
THEOREM NothingLost ==
    ASSUME NEW has, NEW val, Matrix(has, val), NEW r, Windows(r)
    PROVE  ArcConsistent(has, val, [i \in N |-> {t \in r[i] : \E x \in [N -> Int] : Sol(has, val, x) /\ Within(x, r) /\ x[i] = t}])
<1> DEFINE w == [i \in N |-> {t \in r[i] : \E x \in [N -> Int] : Sol(has, val, x) /\ Within(x, r) /\ x[i] = t}]
<1>1. ASSUME NEW i \in N, NEW j \in N, NEW t \in w[i] PROVE \E y \in w[j] : Goes(has, val, i, t, j, y)
  <2>1. PICK x \in [N -> Int] : Sol(has, val, x) /\ Within(x, r) /\ x[i] = t BY <1>1
  <2>2. x[j] \in w[j] BY <2>1 DEF Within
  <2>3. Goes(has, val, i, t, j, x[j]) BY <2>1 DEF Goes, Sol
  <2> QED BY <2>2, <2>3
<1> QED BY <1>1 DEF ArcConsistent

\* Arc consistent windows of which every one has a first date: the first dates are a solution.
\* So a request is satisfiable as soon as its propagated windows are not empty.
THEOREM FirstDates ==
    ASSUME NEW has, NEW val, Matrix(has, val), NEW w, Windows(w), ArcConsistent(has, val, w),
           NEW e \in [N -> Int], Within(e, w), \A i \in N : \A t \in w[i] : e[i] <= t
    PROVE  Sol(has, val, e)
<1>1. ASSUME NEW i \in N, NEW j \in N, has[i, j] PROVE val[i, j] <= e[j] - e[i]
  <2>1. e[j] \in w[j] BY DEF Within
  <2>2. PICK y \in w[i] : Goes(has, val, j, e[j], i, y) BY <2>1 DEF ArcConsistent
  <2>3. e[i] <= y /\ y \in Int BY <2>2 DEF Windows
  <2>4. val[i, j] <= e[j] - y BY <1>1, <2>2 DEF Goes
  <2>5. val[i, j] \in Int BY DEF Matrix
  <2> QED BY <2>3, <2>4, <2>5
<1> QED BY <1>1 DEF Sol

\* likewise the last dates
THEOREM LastDates ==
    ASSUME NEW has, NEW val, Matrix(has, val), NEW w, Windows(w), ArcConsistent(has, val, w),
           NEW e \in [N -> Int], Within(e, w), \A i \in N : \A t \in w[i] : t <= e[i]
    PROVE  Sol(has, val, e)
<1>1. ASSUME NEW i \in N, NEW j \in N, has[i, j] PROVE val[i, j] <= e[j] - e[i]
  <2>1. e[i] \in w[i] BY DEF Within
  <2>2. PICK y \in w[j] : Goes(has, val, i, e[i], j, y) BY <2>1 DEF ArcConsistent
  <2>3. y <= e[j] /\ y \in Int BY <2>2 DEF Windows
  <2>4. val[i, j] <= y - e[i] BY <1>1, <2>2 DEF Goes
  <2>5. val[i, j] \in Int BY DEF Matrix
  <2> QED BY <2>3, <2>4, <2>5
<1> QED BY <1>1 DEF Sol

\* two solutions: their earlier dates together are one (so the first dates of all solutions are)
THEOREM EarlierOfTwo ==
    ASSUME NEW has, NEW val, Matrix(has, val), NEW x \in [N -> Int], NEW y \in [N -> Int],
           Sol(has, val, x), Sol(has, val, y), NEW z \in [N -> Int],
           \A i \in N : z[i] = IF x[i] <= y[i] THEN x[i] ELSE y[i]
    PROVE  Sol(has, val, z)
<1>1. ASSUME NEW i \in N, NEW j \in N, has[i, j] PROVE val[i, j] <= z[j] - z[i]
  <2>1. val[i, j] <= x[j] - x[i] /\ val[i, j] <= y[j] - y[i] BY <1>1 DEF Sol
  <2>2. val[i, j] \in Int /\ x[i] \in Int /\ x[j] \in Int /\ y[i] \in Int /\ y[j] \in Int BY DEF Matrix
  <2>3. z[i] = (IF x[i] <= y[i] THEN x[i] ELSE y[i]) /\ z[j] = (IF x[j] <= y[j] THEN x[j] ELSE y[j]) OBVIOUS
  <2> QED BY <2>1, <2>2, <2>3
<1> QED BY <1>1 DEF Sol

\* In windows without holes every date left is used by a solution: minimal network, convex arc
\* consistent windows with first dates e, and any date t left to instant i
THEOREM EveryDateUsed ==
    ASSUME NEW has, NEW val, Matrix(has, val), Closed(has, val), NEW w, Windows(w), ArcConsistent(has, val, w),
           \A i \in N : \A p, q \in w[i] : \A t \in Int : p <= t /\ t <= q => t \in w[i],
           NEW e \in [N -> Int], Within(e, w), \A i \in N : \A t \in w[i] : e[i] <= t,
           NEW i \in N, NEW t \in w[i],
           NEW x \in [N -> Int],
           \A j \in N : x[j] = IF has[i, j] /\ e[j] < t + val[i, j] THEN t + val[i, j] ELSE e[j]
    PROVE  Sol(has, val, x) /\ Within(x, w) /\ x[i] = t
<1>0. \A p, q \in N : val[p, q] \in Int /\ has[p, q] \in BOOLEAN BY DEF Matrix
<1>t. t \in Int /\ e[i] <= t BY DEF Windows
<1>1. x[i] = t
  <2>1. has[i, i] /\ val[i, i] = 0 BY DEF Closed
  <2>2. x[i] = IF has[i, i] /\ e[i] < t + val[i, i] THEN t + val[i, i] ELSE e[i] OBVIOUS
  <2>3. e[i] \in Int OBVIOUS
  <2> QED BY <1>t, <2>1, <2>2, <2>3
<1>2. ASSUME NEW j \in N PROVE x[j] \in w[j]
  <2>1. e[j] \in w[j] BY DEF Within
  <2>2. x[j] = IF has[i, j] /\ e[j] < t + val[i, j] THEN t + val[i, j] ELSE e[j] OBVIOUS
  <2>3. CASE has[i, j] /\ e[j] < t + val[i, j]
    <3>1. PICK y \in w[j] : Goes(has, val, i, t, j, y) BY DEF ArcConsistent
    <3>2. y \in Int BY <3>1 DEF Windows
    <3>3. t + val[i, j] <= y BY <1>0, <1>t, <2>3, <3>1, <3>2 DEF Goes
    <3>4. e[j] <= t + val[i, j] /\ t + val[i, j] \in Int BY <1>0, <1>t, <2>3
    <3>5. t + val[i, j] \in w[j] BY <2>1, <3>1, <3>3, <3>4
    <3> QED BY <2>2, <2>3, <3>5
  <2> QED BY <2>1, <2>2, <2>3
<1>3. Sol(has, val, e) BY FirstDates
<1>4. ASSUME NEW j \in N, NEW k \in N, has[j, k] PROVE val[j, k] <= x[k] - x[j]
  <2>1. x[j] = IF has[i, j] /\ e[j] < t + val[i, j] THEN t + val[i, j] ELSE e[j] OBVIOUS
  <2>2. x[k] = IF has[i, k] /\ e[k] < t + val[i, k] THEN t + val[i, k] ELSE e[k] OBVIOUS
  <2>3. val[j, k] <= e[k] - e[j] BY <1>3, <1>4 DEF Sol
  <2>4. has[i, j] => has[i, k] /\ val[i, j] + val[j, k] <= val[i, k] BY <1>4 DEF Closed
  <2>5. e[j] \in Int /\ e[k] \in Int OBVIOUS
  <2>6. CASE has[i, j] /\ e[j] < t + val[i, j]
    BY <1>0, <1>t, <2>1, <2>2, <2>4, <2>5, <2>6
  <2>7. CASE ~(has[i, j] /\ e[j] < t + val[i, j])
    <3>1. x[j] = e[j] BY <2>1, <2>7
    <3>2. e[k] <= x[k] BY <1>0, <1>t, <2>2, <2>5
    <3> QED BY <1>0, <2>3, <2>5, <3>1, <3>2
  <2> QED BY <2>6, <2>7
<1> QED BY <1>1, <1>2, <1>4 DEF Sol, Within
=============================================================================
