------------------------------ MODULE MCGraph ------------------------------
(* The graph as a state machine, with the constraints accepted so far kept  *)
(* raw beside it, compared with the set of all solutions in a box.          *)
EXTENDS Graph, TLC
CONSTANTS NMAX, VALS, BOX

V1 == {-1, 0, 1}
V2 == {0, 1}
B5 == 0 .. 5
VARIABLES g, raw        \* the minimal graph; the accepted constraints, element-wise strongest
vars == <<g, raw>>
Lows  == VALS \cup {-OO}
Ups   == VALS \cup {OO}
Edges  == {<<i, j, l, u>> : i \in 0 .. NMAX-1, j \in 0 .. NMAX-1, l \in Lows, u \in Ups}

Sols(r) == {x \in [1 .. r.n -> BOX] : \A a, b \in 1 .. r.n : r.m[a][b] # -OO => x[b] - x[a] >= r.m[a][b]}
Sat(x, k) == /\ k[3] # -OO => x[k[2]+1] - x[k[1]+1] >= k[3]
             /\ k[4] # OO => x[k[2]+1] - x[k[1]+1] <= k[4]

Init == g = Empty /\ raw = Empty
AddK(k) == /\ Fits(g, k)
           /\ g' = Add(g, k)
           /\ raw' = Lay(Grow(raw, Need(k)), <<k>>)
Small(h) == \A a, b \in 1 .. h.n : h.m[a][b] = -OO \/ h.m[a][b] \in -1 .. 1
Size(n) == g' = Resize(g, n) /\ raw' = g' /\ Small(g')
Next == \/ \E k \in Edges : AddK(k)
        \/ \E n \in 0 .. NMAX : Size(n)
        \/ g' = Reset(g) /\ raw' = g'
Spec == Init /\ [][Next]_vars

Width == CHOOSE d \in 0 .. 1000 : d \in BOX /\ \A x \in BOX : x <= d
(* every bound is reached by a solution and no solution is below it *)
Minimal ==
    LET S == Sols(raw) IN
    \A a, b \in 1 .. g.n :
        IF g.m[a][b] = -OO THEN \E x \in S : x[b] - x[a] <= - (Width - 1)
        ELSE /\ \E x \in S : x[b] - x[a] = g.m[a][b]
             /\ \A x \in S : x[b] - x[a] >= g.m[a][b]
(* refusal is exactly unsatisfiability; the one-step formula, the global    *)
(* closure and the in-place sweeps agree; implied means nothing changes     *)
StepLaws ==
    \A k \in Edges :
        LET h == Grow(g, Need(k))
            S == Sols(Grow(raw, Need(k)))
        IN /\ (Fits(g, k) <=> (k[3] <= k[4] /\ \E x \in S : Sat(x, k)))
           /\ Fits(g, k) => /\ Add(g, k) = Bulk(g, <<k>>)
                            /\ Add(g, k) = AddInPlace(g, k)
                            /\ (Implied(g, k) <=> Add(g, k) = g)
           /\ (FitsAll(g, <<k>>) <=> Fits(g, k))
           /\ (FitsEach(g, <<k>>) <=> Fits(g, k))
           /\ Fits(g, k) => BulkEach(g, <<k>>) = Add(g, k)
(* the same for two constraints, and for laying a network over another      *)
PairLaws ==
    \A k, q \in {e \in Edges : e[1] < e[2]} :
        /\ (FitsEach(g, <<k, q>>) <=> FitsAll(g, <<k, q>>))
        /\ FitsAll(g, <<k, q>>) => BulkEach(g, <<k, q>>) = Bulk(g, <<k, q>>)
        /\ FitsAll(Empty, <<k, q>>) =>
              LET h == Bulk(Empty, <<k, q>>) IN
              /\ (Merges(g, h) <=> FitsAll(g, <<k, q>>))
              /\ Merges(g, h) => Merge(g, h) = Bulk(g, <<k, q>>)
OnlyG == g
SameSols == Sols(raw) = Sols(g)
Stable == Close(g) = g /\ Bulk(Empty, << >>) = Empty /\ Merge(g, g) = g
=============================================================================
