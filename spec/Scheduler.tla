----------------------------- MODULE Scheduler -----------------------------
(***************************************************************************)
(* The agenda: for every instant of a constraint graph a window of dates,   *)
(* narrowed by requests and kept arc-consistent, i.e. the largest windows   *)
(* such that each date of an instant is compatible with some date of every  *)
(* other instant.  m is the graph's minimal matrix of lower bounds          *)
(* (m[i][j] <= date(j) - date(i), -OO if unbounded), slots the windows.     *)
(***************************************************************************)
EXTENDS Spans

\* the window of distances from i to j
Dist(m, i, j) == <<<<m[i][j], -m[j][i]>>>>

Start(n) == [i \in 1 .. n |-> All]
\* what the window of instant i leaves to instant j
Seen(m, slots, i, j) == IF i = j \/ Dist(m, i, j) = All THEN slots[j]
                        ELSE Cap(slots[j], Sum(slots[i], Dist(m, i, j)))
\* one instant after looking at all others in turn
Tighten(m, slots, j) == FoldLeft(LAMBDA s, i : [s EXCEPT ![j] = Seen(m, s, i, j)], slots, [i \in 1 .. Len(slots) |-> i])
Sweep(m, slots) == FoldLeft(LAMBDA s, j : Tighten(m, s, j), slots, [i \in 1 .. Len(slots) |-> i])
RECURSIVE Settle(_, _)
Settle(m, slots) == With(Sweep(m, slots), LAMBDA t : IF t = slots THEN slots ELSE Settle(m, t))
\* nothing is left as soon as one instant has no date left
Viable(slots) == \A i \in 1 .. Len(slots) : slots[i] # None
Consistent(m, slots) == IF ~Viable(slots) THEN slots ELSE
                        With(Sweep(m, slots), LAMBDA t : IF t = slots \/ ~Viable(t) THEN t ELSE Settle(m, t))

(* ------------------------------- requests ------------------------------ *)

Keep(m, slots, i, W) == Consistent(m, [slots EXCEPT ![i] = Cap(@, W)])
Drop(m, slots, i, W) == Keep(m, slots, i, Compl(W))
KeepAll(m, slots, W) == Consistent(m, [i \in 1 .. Len(slots) |-> Cap(slots[i], W)])
Until(t) == <<<<-OO, t>>>>
From(t)  == <<<<t, OO>>>>

Opening(A) == A[1][1]
Ending(A)  == A[Len(A)][2]
EarliestEnding(slots)  == CHOOSE x \in {Opening(slots[i]) : i \in 1 .. Len(slots)} : \A i \in 1 .. Len(slots) : Opening(slots[i]) <= x
LatestBeginning(slots) == CHOOSE x \in {Ending(slots[i]) : i \in 1 .. Len(slots)} : \A i \in 1 .. Len(slots) : Ending(slots[i]) >= x
\* some instant has no date on the wanted side
TooLate(slots, t)  == \E i \in 1 .. Len(slots) : Opening(slots[i]) > t
TooEarly(slots, t) == \E i \in 1 .. Len(slots) : Ending(slots[i]) < t
=============================================================================
