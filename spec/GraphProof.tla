----------------------------- MODULE GraphProof -----------------------------
(***************************************************************************)
(* Why one constraint can be added to a minimal matrix of bounds in one     *)
(* pass: proved here for any set of instants and any integer bounds (the    *)
(* model checker does it for three instants and small bounds).              *)
(* has[i, j] tells whether date(j) - date(i) has a lower bound, which is    *)
(* then val[i, j].  The operators are those of module Graph, written with   *)
(* a separate "has" in place of the value -OO.                              *)
(***************************************************************************)
EXTENDS Integers, TLAPS
CONSTANT N

Matrix(has, val) == has \in [N \X N -> BOOLEAN] /\ val \in [N \X N -> Int]
\* minimal: nothing more follows from chaining two bounds, and nothing contradicts
Closed(has, val) ==
    /\ \A i \in N : has[i, i] /\ val[i, i] = 0
    /\ \A i, j, k \in N : has[i, j] /\ has[j, k] => has[i, k] /\ val[i, j] + val[j, k] <= val[i, k]
Sol(has, val, x) == \A i, j \in N : has[i, j] => val[i, j] <= x[j] - x[i]

\* the raised matrix (Graph.Raise)
Thru(has, a, b, i, j) == has[i, a] /\ has[b, j]
Cand(val, a, b, l, i, j) == val[i, a] + l + val[b, j]
RHas(has, a, b) == [p \in N \X N |-> has[p] \/ Thru(has, a, b, p[1], p[2])]
RVal(has, val, a, b, l) ==
    [p \in N \X N |-> IF Thru(has, a, b, p[1], p[2]) /\ (has[p] => val[p] < Cand(val, a, b, l, p[1], p[2]))
                      THEN Cand(val, a, b, l, p[1], p[2]) ELSE val[p]]
\* (Graph.Fits)
Fits(has, val, a, b, l) == has[b, a] => val[b, a] + l <= 0

-----------------------------------------------------------------------------
THEOREM RaiseType ==
    ASSUME NEW has, NEW val, Matrix(has, val), NEW a \in N, NEW b \in N, NEW l \in Int
    PROVE  Matrix(RHas(has, a, b), RVal(has, val, a, b, l))
  BY DEF Matrix, RHas, RVal, Thru, Cand

LEMMA RaiseAt ==
    ASSUME NEW has, NEW val, Matrix(has, val), NEW a \in N, NEW b \in N, NEW l \in Int, NEW i \in N, NEW j \in N
    PROVE  /\ RHas(has, a, b)[i, j] <=> (has[i, j] \/ (has[i, a] /\ has[b, j]))
           /\ RVal(has, val, a, b, l)[i, j] = IF has[i, a] /\ has[b, j] /\ (has[i, j] => val[i, j] < val[i, a] + l + val[b, j])
                                              THEN val[i, a] + l + val[b, j] ELSE val[i, j]
           /\ val[i, j] \in Int /\ val[i, a] \in Int /\ val[b, j] \in Int
           /\ has[i, j] \in BOOLEAN
  BY DEF Matrix, RHas, RVal, Thru, Cand

\* the raised matrix is minimal again
THEOREM RaiseClosed ==
    ASSUME NEW has, NEW val, Matrix(has, val), Closed(has, val),
           NEW a \in N, NEW b \in N, NEW l \in Int, Fits(has, val, a, b, l)
    PROVE  Closed(RHas(has, a, b), RVal(has, val, a, b, l))
<1> DEFINE h == RHas(has, a, b)
           v == RVal(has, val, a, b, l)
<1>1. ASSUME NEW i \in N PROVE h[i, i] /\ v[i, i] = 0
  <2>1. /\ h[i, i] <=> (has[i, i] \/ (has[i, a] /\ has[b, i]))
        /\ v[i, i] = IF has[i, a] /\ has[b, i] /\ (has[i, i] => val[i, i] < val[i, a] + l + val[b, i])
                      THEN val[i, a] + l + val[b, i] ELSE val[i, i]
    BY RaiseAt
  <2>2. \A x, y \in N : val[x, y] \in Int /\ has[x, y] \in BOOLEAN BY DEF Matrix
  <2>3. has[i, i] /\ val[i, i] = 0 BY DEF Closed
  <2>4. has[b, i] /\ has[i, a] => has[b, a] /\ val[b, i] + val[i, a] <= val[b, a] BY DEF Closed
  <2>5. has[b, a] => val[b, a] + l <= 0 BY DEF Fits
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5
<1>2. ASSUME NEW i \in N, NEW j \in N, NEW k \in N, h[i, j], h[j, k]
      PROVE  h[i, k] /\ v[i, j] + v[j, k] <= v[i, k]
  <2> DEFINE P(x, y) == has[x, a] /\ has[b, y]
  <2>1. /\ h[i, j] <=> (has[i, j] \/ P(i, j))
        /\ h[j, k] <=> (has[j, k] \/ P(j, k))
        /\ h[i, k] <=> (has[i, k] \/ P(i, k))
        /\ v[i, j] = IF P(i, j) /\ (has[i, j] => val[i, j] < val[i, a] + l + val[b, j]) THEN val[i, a] + l + val[b, j] ELSE val[i, j]
        /\ v[j, k] = IF P(j, k) /\ (has[j, k] => val[j, k] < val[j, a] + l + val[b, k]) THEN val[j, a] + l + val[b, k] ELSE val[j, k]
        /\ v[i, k] = IF P(i, k) /\ (has[i, k] => val[i, k] < val[i, a] + l + val[b, k]) THEN val[i, a] + l + val[b, k] ELSE val[i, k]
    BY RaiseAt
  <2>2. \A x, y \in N : val[x, y] \in Int /\ has[x, y] \in BOOLEAN BY DEF Matrix
  <2>3. \A x, y, z \in N : has[x, y] /\ has[y, z] => has[x, z] /\ val[x, y] + val[y, z] <= val[x, z] BY DEF Closed
  <2>4. has[b, a] => val[b, a] + l <= 0 BY DEF Fits
  <2>5. CASE ~P(i, j) /\ ~P(j, k)
    BY <1>2, <2>1, <2>2, <2>3, <2>5
  <2>6. CASE P(i, j) /\ ~P(j, k)
    <3>1. has[j, k] BY <1>2, <2>1, <2>6
    <3>2. has[b, k] /\ val[b, j] + val[j, k] <= val[b, k] BY <3>1, <2>3, <2>6
    <3>3. has[i, j] => has[i, k] /\ val[i, j] + val[j, k] <= val[i, k] BY <3>1, <2>3
    <3> QED BY <2>1, <2>2, <2>6, <3>1, <3>2, <3>3
  <2>7. CASE ~P(i, j) /\ P(j, k)
    <3>1. has[i, j] BY <1>2, <2>1, <2>7
    <3>2. has[i, a] /\ val[i, j] + val[j, a] <= val[i, a] BY <3>1, <2>3, <2>7
    <3>3. has[j, k] => has[i, k] /\ val[i, j] + val[j, k] <= val[i, k] BY <3>1, <2>3
    <3> QED BY <2>1, <2>2, <2>7, <3>1, <3>2, <3>3
  <2>8. CASE P(i, j) /\ P(j, k)
    <3>1. has[b, a] /\ val[b, j] + val[j, a] <= val[b, a] BY <2>3, <2>8
    <3>2. has[j, k] => has[b, k] /\ val[b, j] + val[j, k] <= val[b, k] BY <2>3, <2>8
    <3>3. has[i, j] => has[i, a] /\ val[i, j] + val[j, a] <= val[i, a] BY <2>3, <2>8
    <3>4. has[i, j] /\ has[j, k] => has[i, k] /\ val[i, j] + val[j, k] <= val[i, k] BY <2>3
    <3>5. P(i, k) BY <2>8
    <3> QED BY <2>1, <2>2, <2>4, <2>8, <3>1, <3>2, <3>3, <3>4, <3>5
  <2> QED BY <2>5, <2>6, <2>7, <2>8
<1> QED BY <1>1, <1>2 DEF Closed

\* it describes exactly the solutions which satisfy the new bound
THEOREM RaiseExact ==
    ASSUME NEW has, NEW val, Matrix(has, val), Closed(has, val),
           NEW a \in N, NEW b \in N, NEW l \in Int, NEW x \in [N -> Int]
    PROVE  (Sol(has, val, x) /\ l <= x[b] - x[a]) <=> Sol(RHas(has, a, b), RVal(has, val, a, b, l), x)
<1> DEFINE h == RHas(has, a, b)
           v == RVal(has, val, a, b, l)
<1>0. \A i, j \in N : val[i, j] \in Int /\ has[i, j] \in BOOLEAN BY DEF Matrix
<1>1. ASSUME Sol(has, val, x), l <= x[b] - x[a], NEW i \in N, NEW j \in N, h[i, j] PROVE v[i, j] <= x[j] - x[i]
  <2>1. has[i, j] => val[i, j] <= x[j] - x[i] BY <1>1 DEF Sol
  <2>2. has[i, a] => val[i, a] <= x[a] - x[i] BY <1>1 DEF Sol
  <2>3. has[b, j] => val[b, j] <= x[j] - x[b] BY <1>1 DEF Sol
  <2>4. /\ h[i, j] <=> (has[i, j] \/ (has[i, a] /\ has[b, j]))
        /\ v[i, j] = IF has[i, a] /\ has[b, j] /\ (has[i, j] => val[i, j] < val[i, a] + l + val[b, j])
                      THEN val[i, a] + l + val[b, j] ELSE val[i, j]
    BY RaiseAt
  <2>5. x[i] \in Int /\ x[j] \in Int /\ x[a] \in Int /\ x[b] \in Int OBVIOUS
  <2> QED BY <1>0, <1>1, <2>1, <2>2, <2>3, <2>4, <2>5
<1>2. ASSUME Sol(h, v, x), NEW i \in N, NEW j \in N, has[i, j] PROVE val[i, j] <= x[j] - x[i]
  <2>0. /\ h[i, j] <=> (has[i, j] \/ (has[i, a] /\ has[b, j]))
        /\ v[i, j] = IF has[i, a] /\ has[b, j] /\ (has[i, j] => val[i, j] < val[i, a] + l + val[b, j])
                      THEN val[i, a] + l + val[b, j] ELSE val[i, j]
    BY RaiseAt
  <2>1. h[i, j] /\ val[i, j] <= v[i, j] BY <1>0, <1>2, <2>0
  <2>2. v[i, j] <= x[j] - x[i] BY <1>2, <2>1 DEF Sol
  <2>3. v[i, j] \in Int BY RaiseType DEF Matrix
  <2> QED BY <1>0, <2>1, <2>2, <2>3
<1>3. ASSUME Sol(h, v, x) PROVE l <= x[b] - x[a]
  <2>1. has[a, a] /\ val[a, a] = 0 /\ has[b, b] /\ val[b, b] = 0 BY DEF Closed
  <2>0. /\ h[a, b] <=> (has[a, b] \/ (has[a, a] /\ has[b, b]))
        /\ v[a, b] = IF has[a, a] /\ has[b, b] /\ (has[a, b] => val[a, b] < val[a, a] + l + val[b, b])
                      THEN val[a, a] + l + val[b, b] ELSE val[a, b]
    BY RaiseAt
  <2>2. h[a, b] /\ l <= v[a, b] BY <1>0, <2>0, <2>1
  <2>3. v[a, b] <= x[b] - x[a] BY <1>3, <2>2 DEF Sol
  <2>4. v[a, b] \in Int BY RaiseType DEF Matrix
  <2> QED BY <2>2, <2>3, <2>4
<1>4. Sol(has, val, x) /\ l <= x[b] - x[a] => Sol(h, v, x) BY <1>1 DEF Sol
<1>5. Sol(h, v, x) => Sol(has, val, x) BY <1>2 DEF Sol
<1> QED BY <1>3, <1>4, <1>5

\* a bound which does not fit excludes every solution
THEOREM RefusedRightly ==
    ASSUME NEW has, NEW val, Matrix(has, val), NEW a \in N, NEW b \in N, NEW l \in Int, ~Fits(has, val, a, b, l),
           NEW x \in [N -> Int], Sol(has, val, x)
    PROVE  ~(l <= x[b] - x[a])
  BY DEF Matrix, Sol, Fits

\* where everything is bounded from instant i on, its bounds are attained together by a solution:
\* a minimal matrix is consistent and cannot be tightened
THEOREM Attained ==
    ASSUME NEW has, NEW val, Matrix(has, val), Closed(has, val), NEW i \in N, \A k \in N : has[i, k]
    PROVE  /\ Sol(has, val, [k \in N |-> val[i, k]])
           /\ \A k \in N : val[i, k] - val[i, i] = val[i, k]
<1>1. \A x, y \in N : val[x, y] \in Int BY DEF Matrix
<1>2. val[i, i] = 0 BY DEF Closed
<1>3. ASSUME NEW x \in N, NEW y \in N, has[x, y] PROVE val[x, y] <= val[i, y] - val[i, x]
  <2>1. has[i, x] /\ has[x, y] => val[i, x] + val[x, y] <= val[i, y] BY DEF Closed
  <2> QED BY <1>1, <1>3, <2>1
<1>4. Sol(has, val, [k \in N |-> val[i, k]]) BY <1>3 DEF Sol
<1> QED BY <1>1, <1>2, <1>4

LEMMA SweepArith ==
    ASSUME NEW hij \in BOOLEAN, NEW hia \in BOOLEAN, NEW hib \in BOOLEAN, NEW hbj \in BOOLEAN, NEW cb \in BOOLEAN, NEW rh \in BOOLEAN,
           NEW mij \in Int, NEW mia \in Int, NEW mib \in Int, NEW mbj \in Int, NEW cv \in Int, NEW l \in Int, NEW rv \in Int,
           hib /\ hbj => hij /\ mib + mbj <= mij,
           cb <=> (hib \/ hia),
           hia /\ (hib => mib < mia + l) => cv = mia + l,
           ~(hia /\ (hib => mib < mia + l)) => cv = mib,
           rh <=> (hij \/ (hia /\ hbj)),
           rv = IF hia /\ hbj /\ (hij => mij < mia + l + mbj) THEN mia + l + mbj ELSE mij
    PROVE  /\ rh <=> (hij \/ (cb /\ hbj))
           /\ rh => rv = IF cb /\ hbj /\ (hij => mij < cv + mbj) THEN cv + mbj ELSE mij
  OBVIOUS

\* the two sweeps of the code give the raised matrix: first the column of b (ch, cv), then every row
THEOREM TwoSweeps ==
    ASSUME NEW has, NEW val, Matrix(has, val), Closed(has, val),
           NEW a \in N, NEW b \in N, NEW l \in Int, Fits(has, val, a, b, l),
           NEW ch \in [N -> BOOLEAN], NEW cv \in [N -> Int],
           \A i \in N : /\ ch[i] <=> (has[i, b] \/ has[i, a])
                        /\ has[i, a] /\ (has[i, b] => val[i, b] < val[i, a] + l) => cv[i] = val[i, a] + l
                        /\ ~(has[i, a] /\ (has[i, b] => val[i, b] < val[i, a] + l)) => cv[i] = val[i, b],
           NEW i \in N, NEW j \in N
    PROVE  /\ RHas(has, a, b)[i, j] <=> (has[i, j] \/ (ch[i] /\ has[b, j]))
           /\ RHas(has, a, b)[i, j] =>
                RVal(has, val, a, b, l)[i, j] = IF ch[i] /\ has[b, j] /\ (has[i, j] => val[i, j] < cv[i] + val[b, j])
                                                THEN cv[i] + val[b, j] ELSE val[i, j]
<1> DEFINE rh == RHas(has, a, b)[i, j]
           rv == RVal(has, val, a, b, l)[i, j]
<1>0. \A x, y \in N : val[x, y] \in Int /\ has[x, y] \in BOOLEAN BY DEF Matrix
<1>1. has[i, b] /\ has[b, j] => has[i, j] /\ val[i, b] + val[b, j] <= val[i, j] BY DEF Closed
<1>2. cv[i] \in Int /\ ch[i] \in BOOLEAN OBVIOUS
<1>3. /\ rh <=> (has[i, j] \/ (has[i, a] /\ has[b, j]))
      /\ rv = IF has[i, a] /\ has[b, j] /\ (has[i, j] => val[i, j] < val[i, a] + l + val[b, j])
              THEN val[i, a] + l + val[b, j] ELSE val[i, j]
  BY RaiseAt
<1>4. /\ ch[i] <=> (has[i, b] \/ has[i, a])
      /\ has[i, a] /\ (has[i, b] => val[i, b] < val[i, a] + l) => cv[i] = val[i, a] + l
      /\ ~(has[i, a] /\ (has[i, b] => val[i, b] < val[i, a] + l)) => cv[i] = val[i, b]
  OBVIOUS
<1>5. rv \in Int /\ rh \in BOOLEAN
  <2>1. Matrix(RHas(has, a, b), RVal(has, val, a, b, l)) BY RaiseType
  <2> QED BY <2>1 DEF Matrix
<1>6. /\ val[i, j] \in Int /\ val[i, a] \in Int /\ val[i, b] \in Int /\ val[b, j] \in Int
      /\ has[i, j] \in BOOLEAN /\ has[i, a] \in BOOLEAN /\ has[i, b] \in BOOLEAN /\ has[b, j] \in BOOLEAN
  BY <1>0
<1> HIDE DEF rh, rv
<1> DEFINE hij == has[i, j]  hia == has[i, a]  hib == has[i, b]  hbj == has[b, j]
           mij == val[i, j]  mia == val[i, a]  mib == val[i, b]  mbj == val[b, j]  cb == ch[i]  cw == cv[i]
<1> HIDE DEF hij, hia, hib, hbj, mij, mia, mib, mbj, cb, cw
<1>7. /\ rh <=> (has[i, j] \/ (ch[i] /\ has[b, j]))
      /\ rh => rv = IF ch[i] /\ has[b, j] /\ (has[i, j] => val[i, j] < cv[i] + val[b, j]) THEN cv[i] + val[b, j] ELSE val[i, j]
  <2>1. /\ hij \in BOOLEAN /\ hia \in BOOLEAN /\ hib \in BOOLEAN /\ hbj \in BOOLEAN /\ cb \in BOOLEAN
        /\ mij \in Int /\ mia \in Int /\ mib \in Int /\ mbj \in Int /\ cw \in Int
        /\ hib /\ hbj => hij /\ mib + mbj <= mij
        /\ cb <=> (hib \/ hia)
        /\ hia /\ (hib => mib < mia + l) => cw = mia + l
        /\ ~(hia /\ (hib => mib < mia + l)) => cw = mib
        /\ rh <=> (hij \/ (hia /\ hbj))
        /\ rv = IF hia /\ hbj /\ (hij => mij < mia + l + mbj) THEN mia + l + mbj ELSE mij
    BY <1>1, <1>2, <1>3, <1>4, <1>6 DEF hij, hia, hib, hbj, mij, mia, mib, mbj, cb, cw
  <2>2. /\ rh <=> (hij \/ (cb /\ hbj))
        /\ rh => rv = IF cb /\ hbj /\ (hij => mij < cw + mbj) THEN cw + mbj ELSE mij
    BY <1>5, <2>1
  <2> QED BY <2>2 DEF hij, hia, hib, hbj, mij, mia, mib, mbj, cb, cw
<1> QED BY <1>7 DEF rh, rv
=============================================================================
