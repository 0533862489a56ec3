------------------------------ MODULE Endless ------------------------------
(***************************************************************************)
(* Lazy chains over windows that never end: recurring slots start, start +  *)
(* period, ... each of the same length.  A chain is known exactly up to a   *)
(* horizon: a node is the list p of the first parts it can give, and the    *)
(* instant v up to which these are all, v = OO when the window is complete. *)
(* Otherwise v is the end of the last of them: an iterator has no other way *)
(* to tell how far it got than to give a part.  Iterators shows how much of *)
(* its sources an iterator reads; here that is composed over whole chains.  *)
(***************************************************************************)
EXTENDS Spans

H   == 150           \* how far the endless sources are looked at
Slack == 2           \* parts an operator may read ahead of what it gives
Lots == 1000000

Upto(p, v) == IF v = OO THEN p ELSE Cap(p, <<<<-OO, v>>>>)
EndOf(p)    == IF p = << >> THEN -OO ELSE p[Len(p)][2]
\* a part still open at v cannot be given yet
Close(q, v) == IF v # OO /\ q # << >> /\ q[Len(q)][2] = v THEN SubSeq(q, 1, Len(q) - 1) ELSE q
Known(k, p, sub) == [k |-> k, p |-> p, v |-> EndOf(p), sub |-> sub]
Whole(k, p, sub) == [k |-> k, p |-> p, v |-> OO, sub |-> sub]
Node(k, p, v, sub) == IF v = OO THEN Whole(k, p, sub) ELSE With(Close(Upto(p, v), v), LAMBDA x : Known(k, x, sub))

\* the first parts of an endless window
Slots(s, d, n) == [i \in 1 .. ((H - s) \div d) + 1 |-> <<s + d * (i - 1), s + d * (i - 1) + n - 1>>]
Forever(s, d, n) == Known("leaf", Slots(s, d, n), << >>)

Join(a, b) == Node("u", Cup(a.p, b.p), MinOf(a.v, b.v), <<a, b>>)
Meet(a, b) == \* known to the end as soon as one side ends within what is known of the other
    LET ends == (a.v = OO /\ EndOf(a.p) < b.v) \/ (b.v = OO /\ EndOf(b.p) < a.v)
    IN Node("i", Cap(a.p, b.p), IF ends THEN OO ELSE MinOf(a.v, b.v), <<a, b>>)
Gaps(a) == Node("c", Compl(a.p), a.v, <<a>>)
Move(a, t) == LET p == Sum(a.p, <<<<t, t>>>>) IN IF a.v = OO THEN Whole("t", p, <<a>>) ELSE Known("t", p, <<a>>)

Build(st, c) ==
    LET n == Len(st)
        one == SubSeq(st, 1, n - 1)
        two == SubSeq(st, 1, n - 2)
    IN CASE c.k = "w" -> Append(st, Whole("leaf", c.w, << >>))
         [] c.k = "e" -> Append(st, Forever(c.v[1], c.v[2], c.v[3]))
         [] c.k = "c" -> Append(one, Gaps(st[n]))
         [] c.k = "t" -> Append(one, Move(st[n], c.v))
         [] c.k = "u" -> Append(two, Join(st[n-1], st[n]))
         [] c.k = "i" -> Append(two, Meet(st[n-1], st[n]))
         [] c.k = "x" -> Append(two, Meet(st[n-1], Gaps(st[n])))
Tree(c) == With(FoldLeft(Build, << >>, c), LAMBDA st : st[1])

Begun(p, x) == Cardinality({i \in 1 .. Len(p) : p[i][1] <= x})

(* ------------------------------- demand -------------------------------- *)
\* steps of child c enough to know everything up to instant x
Need(c, x) == IF c.v = OO THEN MinOf(Begun(c.p, x), Len(c.p)) + Slack
              ELSE IF x >= c.v THEN Lots ELSE Begun(c.p, x) + Slack
\* steps of child number i when a has been asked s times
Asked(a, s, i) ==
    LET c == a.sub[i] IN
    IF a.k = "t" THEN s + Slack
    ELSE IF s = 0 THEN Slack
    ELSE IF s <= Len(a.p) THEN Need(c, IF a.p[s][2] = OO THEN OO ELSE a.p[s][2] + 1)
    ELSE IF a.v # OO THEN Lots
    ELSE IF c.v = OO THEN Len(c.p) + Slack
    ELSE \* only an intersection ends before its source does
         Need(c, EndOf(a.sub[3 - i].p))
\* the most that may have been read from each leaf (left to right) after s steps
RECURSIVE Allow(_, _), AllowAny(_)
AllowAny(a) == IF a.k = "leaf" THEN <<Lots>> ELSE AllowAny(a.sub[1]) \o (IF Len(a.sub) = 2 THEN AllowAny(a.sub[2]) ELSE << >>)
Allow(a, s) == IF s >= Lots THEN AllowAny(a)
               ELSE IF a.k = "leaf" THEN <<s>>
               ELSE Allow(a.sub[1], Asked(a, s, 1)) \o (IF Len(a.sub) = 2 THEN Allow(a.sub[2], Asked(a, s, 2)) ELSE << >>)

(* --------------------- what a run of a chain may show ------------------- *)
\* r.p: the parts given (<<0>>: none any more, <<0, 0, 0>>: still looking when it was stopped);
\* r.n: after each of them, how much was read from every leaf; r.s: the size hints before each
Nothing == <<0>>
Lost    == <<0, 0, 0>>
RunOK(r, a) ==
    LET m == Len(a.p) IN
    /\ \A i \in 1 .. Len(r.p) :
         /\ i <= m => r.p[i] = a.p[i]
         /\ (i > m /\ a.v = OO) => r.p[i] = Nothing
    /\ Len(r.p) >= (IF a.v = OO THEN m + 1 ELSE m)
    /\ \A i \in 1 .. Len(r.n) : \E z \in {Allow(a, i)} : \A j \in 1 .. Len(z) : r.n[i][j] <= z[j]
    /\ \A i \in 1 .. Len(r.s) :
         IF a.v = OO /\ i <= m + 1 THEN r.s[i][1] <= m + 1 - i /\ (r.s[i][2] = -1 \/ m + 1 - i <= r.s[i][2])
         ELSE a.v # OO /\ i <= m => (r.s[i][2] = -1 \/ m + 1 - i <= r.s[i][2])
=============================================================================
