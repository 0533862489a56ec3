------------------------------ MODULE MCRender ------------------------------
(* The texts identify what they say: every debugging text reads back as the  *)
(* window it was made from, and a list of units that adds up to a duration   *)
(* is accepted for it, and for no duration two nanoseconds or more away.     *)
EXTENDS Render, TLC
CONSTANTS N, DURS

\* small range: MAX = W(N)
MMAX == <<1, <<N>>>>
MSUB == Billion

VARIABLES w, k
vars == <<w, k>>
Vals == {W(x) : x \in -N .. N}
ToInt(a) == IF a = Zero THEN 0 ELSE a[1] * a[2][1]
\* canonical windows grow part by part: any gap of at least one instant
Init == w = << >> /\ k \in DURS
Sound(q) == Le(q[1], q[2]) /\ Lt(q[1], MAX) /\ Lt(NMAX, q[2])
Next == /\ k = 0
        /\ \E lo \in Vals, hi \in Vals :
              /\ Sound(<<lo, hi>>)
              /\ w # << >> => Lt(Add(w[Len(w)][2], W(1)), lo)
              /\ w' = Append(w, <<lo, hi>>)
        /\ k' = k
Spec == Init /\ [][Next]_vars
ReadsBack == ReadWindow(DebugText(w)) = w
SaysIt == WindowSays("v", "debug", w, DebugText(w))

(* k is a duration in nanoseconds, native; greedy list of units              *)
NanosNative == <<0, 0, 0, 0, 0, 1000000000, 1000000, 1000, 1>>
RECURSIVE Greedy(_, _)
Greedy(n, i) == IF i > 9 THEN << >>
                ELSE LET x == n \div NanosNative[i] IN
                     (IF x > 0 THEN <<<<UnitName[i], W(x)>>>> ELSE << >>) \o Greedy(n % NanosNative[i], i + 1)
Text(n) == IF n = 0 THEN <<Nought>> ELSE Greedy(n, 6)
\* one tick is one nanosecond here (SUB = Billion)
Accepts == w = << >> => /\ DurOK(W(k), Text(k))
                        /\ k > 0 => DurOK(W(-k), <<P("-")>> \o Text(k))
                        /\ k > 1 => ~DurOK(W(-k), Text(k)) /\ ~DurOK(W(k), <<P("-")>> \o Text(k))
                        /\ ~DurOK(W(k), Text(k + 2))
                        /\ k >= 1000 => ~DurOK(W(k), <<<<"ns", W(k)>>>>)
=============================================================================
