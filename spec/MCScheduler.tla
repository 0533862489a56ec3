---------------------------- MODULE MCScheduler ----------------------------
(* The agenda against the set of all complete assignments, enumerated for   *)
(* small graphs whose instants all start inside a bounded box of dates.     *)
EXTENDS Scheduler
CONSTANTS NI, BOX, STEPS
B == 0 .. BOX
VARIABLES m, slots, conv, asked, req
vars == <<m, slots, conv, asked, req>>
\* req[i]: the dates of i allowed by the requests alone; conv: all of them were intervals
Lows == {-OO, -1, 0, 1}
Mats == {x \in [1 .. NI -> [1 .. NI -> Lows]] : \A i \in 1 .. NI : x[i][i] = 0}
\* keep the minimal and consistent ones
Minimal(x) == \A i, j, k \in 1 .. NI : x[i][j] >= AddLo(x[i][k], x[k][j])
Graphs == {x \in Mats : Minimal(x)}
Wins == {Norm({<<a, a>> : a \in S}) : S \in SUBSET B}
Ints == {A \in Wins : Len(A) = 1}
Dates(A) == {x \in B : In(x, Pairs(A))}

Sols(r) == {x \in [1 .. NI -> B] : /\ \A i \in 1 .. NI : x[i] \in r[i]
                                   /\ \A i, j \in 1 .. NI : m[i][j] # -OO => x[j] - x[i] >= m[i][j]}
Init == /\ m \in Graphs
        /\ req = [i \in 1 .. NI |-> B]
        /\ slots = Consistent(m, [i \in 1 .. NI |-> <<<<0, BOX>>>>])
        /\ Viable(slots)
        /\ conv = TRUE /\ asked = 0
Retain(i, W) == \E t \in {Keep(m, slots, i, W)} :
                  /\ Viable(t) /\ slots' = t
                  /\ req' = [req EXCEPT ![i] = @ \cap Dates(W)]
                  /\ conv' = (conv /\ Len(W) = 1)
Next == /\ asked < STEPS /\ asked' = asked + 1 /\ m' = m
        /\ \E i \in 1 .. NI, W \in Wins : Retain(i, W)
Spec == Init /\ [][Next]_vars
Hide == <<m, slots, conv, req>>

Support == \A i, j \in 1 .. NI : \A x \in Dates(slots[i]) : \E y \in Dates(slots[j]) :
              (m[i][j] # -OO => y - x >= m[i][j]) /\ (m[j][i] # -OO => x - y >= m[j][i])
NothingLost == \A s \in Sols(req) : \A i \in 1 .. NI : In(s[i], Pairs(slots[i]))
ConvexExact == conv => \A i \in 1 .. NI : Dates(slots[i]) = {s[i] : s \in Sols(req)}
\* the earliest (latest) dates of all instants together form a solution
Extremes == LET r == [i \in 1 .. NI |-> {Opening(slots[i])}] q == [i \in 1 .. NI |-> {Ending(slots[i])}]
            IN Sols(r) # {} /\ Sols(q) # {}
RefusedExactly ==
    \A i \in 1 .. NI, W \in Wins :
        Viable(Keep(m, slots, i, W)) <=> Sols([req EXCEPT ![i] = @ \cap Dates(W)]) # {}
Bounding ==
    \A t \in B : /\ TooLate(slots, t) <=> ~Viable(KeepAll(m, slots, Until(t)))
                 /\ TooEarly(slots, t) <=> ~Viable(KeepAll(m, slots, From(t)))
                 /\ ~TooLate(slots, t) => \E s \in Sols(req) : \A i \in 1 .. NI : s[i] <= t
                 /\ TooLate(slots, t) <=> EarliestEnding(slots) > t
                 /\ TooEarly(slots, t) <=> LatestBeginning(slots) < t
                 \* instant after instant is the same as all at once
                 /\ ~TooLate(slots, t) =>
                      KeepAll(m, slots, Until(t)) =
                      FoldLeft(LAMBDA s, i : Keep(m, s, i, Until(t)), slots, [i \in 1 .. NI |-> i])
=============================================================================
