------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* The constraint graph.  A graph has n instants (0 .. n-1) and holds, for  *)
(* every ordered pair, the greatest implied lower bound of date(j)-date(i); *)
(* the upper bound is the negated lower bound of the reversed pair.         *)
(* A graph is a record [n, m] with m[i+1][j+1] the bound, -OO if none.      *)
(* A constraint is a tuple <<i, j, l, u>>: date(j) - date(i) in l .. u.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

OO == 1000000

(* Op applied to the value v; TLC would otherwise evaluate v again at every *)
(* use, since it caches nothing while it computes a next state              *)
With(v, Op(_)) == CHOOSE r \in {Op(x) : x \in {v}} : TRUE
Upto(n) == [i \in 1 .. n |-> i]

Max2(a, b) == IF a >= b THEN a ELSE b
Plus(a, b) == IF a = -OO \/ b = -OO THEN -OO ELSE a + b

Free(n)  == [n |-> n, m |-> [a \in 1 .. n |-> [b \in 1 .. n |-> IF a = b THEN 0 ELSE -OO]]]
Empty    == Free(0)
\* the bound for any pair of instants, those outside the graph being unconstrained
Lower(g, i, j) == IF i < g.n /\ j < g.n THEN g.m[i+1][j+1] ELSE -OO

Grow(g, n) ==
    IF n <= g.n THEN g
    ELSE [n |-> n, m |-> TLCEval([a \in 1 .. n |-> [b \in 1 .. n |->
             IF a <= g.n /\ b <= g.n THEN g.m[a][b] ELSE IF a = b THEN 0 ELSE -OO]])]
Resize(g, n) ==
    IF n >= g.n THEN Grow(g, n)
    ELSE [n |-> n, m |-> TLCEval([a \in 1 .. n |-> [b \in 1 .. n |-> g.m[a][b]]])]
Constrained(g, i) == \E j \in 0 .. g.n - 1 : j # i /\ (Lower(g, i, j) # -OO \/ Lower(g, j, i) # -OO)
Fit(g) ==
    LET C == {i \in 0 .. g.n - 1 : Constrained(g, i)}
    IN Resize(g, IF C = {} THEN 0 ELSE 1 + CHOOSE i \in C : \A k \in C : k <= i)
Reset(g) == Free(g.n)

(* ------------------------- adding one constraint ----------------------- *)

Need(k) == 1 + Max2(k[1], k[2])
\* raise the bound of one ordered pair in a minimal matrix
Raise(m, n, a, b, l) ==
    TLCEval([x \in 1 .. n |-> [y \in 1 .. n |-> Max2(m[x][y], Plus(Plus(m[x][a], l), m[b][y]))]])
Fits(g, k) ==
    /\ k[3] <= k[4]
    /\ Plus(k[3], Lower(g, k[2], k[1])) <= 0
    /\ Plus(-k[4], Lower(g, k[1], k[2])) <= 0
    /\ k[1] = k[2] => k[3] <= 0 /\ k[4] >= 0
Implied(g, k) == Need(k) <= g.n /\ k[3] <= Lower(g, k[1], k[2]) /\ -k[4] <= Lower(g, k[2], k[1])
\* only for k that fits
Add(g, k) ==
    With(Grow(g, Need(k)), LAMBDA h :
    With(Raise(h.m, h.n, k[1] + 1, k[2] + 1, k[3]), LAMBDA m1 :
         [n |-> h.n, m |-> Raise(m1, h.n, k[2] + 1, k[1] + 1, -k[4])]))

(* ------------------------ adding many constraints ---------------------- *)

\* closure of any matrix of bounds (all-pairs longest paths)
Relax(m, n, c) == TLCEval([a \in 1 .. n |-> [b \in 1 .. n |-> Max2(m[a][b], Plus(m[a][c], m[c][b]))]])
Close(g) == [n |-> g.n, m |-> FoldLeft(LAMBDA m, c : Relax(m, g.n, c), g.m, Upto(g.n))]
NoCycle(g) == \A a \in 1 .. g.n : g.m[a][a] = 0

NeedAll(K, n) == FoldLeft(LAMBDA a, k : Max2(a, Need(k)), n, K)
\* the bounds of a list of constraints laid over a graph
LayOne(m, k) == [[m EXCEPT ![k[1]+1][k[2]+1] = Max2(@, k[3])] EXCEPT ![k[2]+1][k[1]+1] = Max2(@, -k[4])]
Lay(g, K) == [n |-> g.n, m |-> FoldLeft(LayOne, g.m, K)]
Bulk(g, K) == With(Lay(With(NeedAll(K, g.n), LAMBDA n : Grow(g, n)), K), Close)
FitsAll(g, K) == (\A i \in 1 .. Len(K) : K[i][3] <= K[i][4]) /\ With(Bulk(g, K), NoCycle)

\* laying one graph over another
Over(g, h) ==
    With(Max2(g.n, h.n), LAMBDA n : With(Grow(g, n), LAMBDA x : With(Grow(h, n), LAMBDA y :
        [n |-> n, m |-> [a \in 1 .. n |-> [b \in 1 .. n |-> Max2(x.m[a][b], y.m[a][b])]]])))
Merge(g, h)  == With(Over(g, h), Close)
Merges(g, h) == With(Merge(g, h), NoCycle)

(* for networks too large for the closure: the bounds raised one after the  *)
(* other; a contradiction leaves a positive bound from an instant to itself *)
AddRaw(g, k) == With(Raise(g.m, g.n, k[1] + 1, k[2] + 1, k[3]), LAMBDA m1 : [n |-> g.n, m |-> Raise(m1, g.n, k[2] + 1, k[1] + 1, -k[4])])
BulkEach(g, K) == FoldLeft(AddRaw, With(NeedAll(K, g.n), LAMBDA n : Grow(g, n)), K)
FitsEach(g, K) == (\A i \in 1 .. Len(K) : K[i][3] <= K[i][4]) /\ With(BulkEach(g, K), NoCycle)

(* the same, one constraint at a time *)
RECURSIVE OneByOne(_, _)
OneByOne(g, K) ==
    IF K = << >> THEN [ok |-> TRUE, g |-> g]
    ELSE IF Fits(g, Head(K)) THEN OneByOne(Add(g, Head(K)), Tail(K))
    ELSE [ok |-> FALSE, g |-> g]

(* ------------------------------- queries ------------------------------- *)

Span(g, i, j) == <<Lower(g, i, j), -Lower(g, j, i)>>
Linked(g, i, j) == i < g.n /\ j < g.n /\ Span(g, i, j) # <<-OO, OO>>
\* -1: i before j, 1: after, 0: same date, 2: unknown
Order(g, i, j) ==
    IF i >= g.n \/ j >= g.n THEN 2
    ELSE IF Lower(g, i, j) > 0 THEN -1
    ELSE IF Lower(g, j, i) > 0 THEN 1
    ELSE IF Span(g, i, j) = <<0, 0>> THEN 0 ELSE 2
Distinct(g, i, j) == Order(g, i, j) \in {-1, 1}
Equiv(k, q) == k = q \/ (k[1] = q[2] /\ k[2] = q[1] /\ k[3] = -q[4] /\ k[4] = -q[3])

(* ------------------------ the in-place algorithms ---------------------- *)
(* what the code does: two sweeps after one bound was written *)
RECURSIVE SweepCol(_, _, _, _, _)
SweepCol(m, n, io, jo, i) ==          \* C(i,jo) <- max(C(i,jo), C(i,io) + C(io,jo))
    IF i > n THEN m
    ELSE SweepCol([m EXCEPT ![i][jo] = Max2(@, Plus(m[i][io], m[io][jo]))], n, io, jo, i + 1)
RECURSIVE SweepRow(_, _, _, _, _)
SweepRow(m, n, jo, j, i) ==
    IF i > n THEN m
    ELSE SweepRow([m EXCEPT ![j][i] = Max2(@, Plus(m[j][jo], m[jo][i]))], n, jo, j, i + 1)
RECURSIVE SweepRows(_, _, _, _)
SweepRows(m, n, jo, j) == IF j > n THEN m ELSE SweepRows(SweepRow(m, n, jo, j, 1), n, jo, j + 1)
RaiseInPlace(m, n, io, jo, l) ==
    SweepRows(SweepCol([m EXCEPT ![io][jo] = Max2(@, l)], n, io, jo, 1), n, jo, 1)
AddInPlace(g, k) ==
    LET h  == Grow(g, Need(k))
        m1 == RaiseInPlace(h.m, h.n, k[1] + 1, k[2] + 1, k[3])
    IN [n |-> h.n, m |-> RaiseInPlace(m1, h.n, k[2] + 1, k[1] + 1, -k[4])]
=============================================================================
