------------------------------- MODULE Render -------------------------------
(* What the library's texts say.  A text is a sequence of tokens <<s, n>>    *)
(* (a word or sign, and a number when it has one).  A window is its list of  *)
(* parts <<lo, hi>> of wide ticks, -MAX and MAX standing for missing bounds. *)
(* Two vocabularies: debugging text (exact ticks) and reading text (lists of *)
(* units, calendar dates).                                                   *)
EXTENDS Numbers

P(s) == <<s, Zero>>

(* ------------------------------ windows -------------------------------- *)
(* the skeleton of a text: tokens, and places <<"val", a>> where a bound is  *)
PartText(q) ==
    CASE q[1] = q[2]                   -> <<P("{"), <<"val", q[1]>>, P("}")>>
      [] Finite(q[1]) /\ Finite(q[2])  -> <<P("["), <<"val", q[1]>>, P(","), <<"val", q[2]>>, P("]")>>
      [] Finite(q[1])                  -> <<P("["), <<"val", q[1]>>, P(","), P("+oo"), P("[")>>
      [] Finite(q[2])                  -> <<P("]"), P("-oo"), P(","), <<"val", q[2]>>, P("]")>>
      [] OTHER                         -> <<P("]"), P("-oo"), P(","), P("+oo"), P("[")>>
RECURSIVE JoinFrom(_, _)
JoinFrom(w, i) == IF i > Len(w) THEN << >> ELSE (IF i = 1 THEN << >> ELSE <<P("U")>>) \o PartText(w[i]) \o JoinFrom(w, i + 1)
SetText(w) == IF w = << >> THEN <<P("{"), P("}")>> ELSE JoinFrom(w, 1)
\* a single time point
PointText(a) == IF Finite(a) THEN <<<<"val", a>>>> ELSE <<P(IF a[1] > 0 THEN "+oo" ELSE "-oo")>>

(* -------------------------- durations to read --------------------------- *)
(* decreasing units, in nanoseconds *)
UnitName == <<"y", "mo", "d", "h", "min", "s", "ms", "us", "ns">>
UnitNanos(i) == CASE i = 1 -> Mul(Year, Billion)
                  [] i = 2 -> Mul(W(2629746), Billion)
                  [] i = 3 -> Mul(W(86400), Billion)
                  [] i = 4 -> Mul(W(3600), Billion)
                  [] i = 5 -> Mul(W(60), Billion)
                  [] i = 6 -> Billion
                  [] i = 7 -> W(1000000)
                  [] i = 8 -> W(1000)
                  [] i = 9 -> W(1)
Rank(s) == IF \E i \in 1 .. 9 : UnitName[i] = s THEN CHOOSE i \in 1 .. 9 : UnitName[i] = s ELSE 0
Nought == <<"num", Zero>>
\* the tokens of one duration, starting at j, end before the result
RECURSIVE RunEnd(_, _)
RunEnd(t, j) == IF j <= Len(t) /\ (t[j] = P("-") \/ t[j] = Nought \/ Rank(t[j][1]) > 0) THEN RunEnd(t, j + 1) ELSE j
\* each component below the next larger unit, the units decreasing
CompsOK(c) == \A i \in 1 .. Len(c) :
                 LET k == Rank(c[i][1]) IN
                 /\ k > 0 /\ c[i][2][1] > 0
                 /\ i > 1 => Rank(c[i-1][1]) < k
                 /\ k > 1 => Lt(Mul(c[i][2], UnitNanos(k)), UnitNanos(k - 1))
RECURSIVE Total(_, _)
Total(c, i) == IF i > Len(c) THEN Zero ELSE Add(Mul(c[i][2], UnitNanos(Rank(c[i][1]))), Total(c, i + 1))
WithinOne(a, n) == Le(Abs(Sub(Mul(a, Billion), Mul(n, SUB))), SUB)
\* run t denotes duration a >= 0
AmountOK(a, t) == \/ t = <<Nought>> /\ WithinOne(a, Zero)
                  \/ t # << >> /\ CompsOK(t) /\ WithinOne(a, Total(t, 1))
DurOK(a, t) == /\ t # << >>
               /\ IF a[1] >= 0 THEN AmountOK(a, t)
                  ELSE \/ t[1] = P("-") /\ AmountOK(Abs(a), Tail(t))
                       \/ t = <<Nought>> /\ WithinOne(a, Zero)

(* ------------------------------ the texts ------------------------------ *)
(* kind of bounds "v" (durations) or "t" (dates); way of writing: "debug",   *)
(* "show" (reading text), "slot" (dates written with a chosen format)        *)
RECURSIVE SaysFrom(_, _, _, _, _, _)
SaysFrom(kind, way, items, i, t, j) ==
    IF i > Len(items) THEN j = Len(t) + 1
    ELSE IF j > Len(t) THEN FALSE
    ELSE IF items[i][1] # "val" THEN t[j] = items[i] /\ SaysFrom(kind, way, items, i + 1, t, j + 1)
    ELSE LET a == items[i][2] IN
         IF way = "debug"
         THEN IF kind = "v" THEN t[j] = <<"num", a>> /\ SaysFrom(kind, way, items, i + 1, t, j + 1)
              ELSE t[j] = P("t=") /\ j < Len(t) /\ t[j+1] = <<"num", a>> /\ SaysFrom(kind, way, items, i + 1, t, j + 2)
         ELSE IF kind = "t" /\ way = "slot" THEN t[j][1] = "stamp" /\ Near(a, t[j][2]) /\ SaysFrom(kind, way, items, i + 1, t, j + 1)
         ELSE IF kind = "t" /\ a[1] >= 0 THEN t[j][1] = "date" /\ Near(a, t[j][2]) /\ SaysFrom(kind, way, items, i + 1, t, j + 1)
         ELSE LET e == RunEnd(t, j) IN
              IF kind = "v" THEN DurOK(a, SubSeq(t, j, e - 1)) /\ SaysFrom(kind, way, items, i + 1, t, e)
              ELSE /\ AmountOK(Abs(a), SubSeq(t, j, e - 1))
                   /\ e <= Len(t) /\ t[e] = P("before")
                   /\ SaysFrom(kind, way, items, i + 1, t, e + 1)
Says(kind, way, items, t) == SaysFrom(kind, way, items, 1, t, 1)
WindowSays(kind, way, w, t) == Says(kind, way, SetText(w), t)
\* in debugging text a date is marked as such even when infinite
PointSays(kind, way, a, t) ==
    IF kind = "t" /\ way = "debug" /\ ~Finite(a) THEN t = <<P("t=")>> \o PointText(a) ELSE Says(kind, way, PointText(a), t)

(* ------------------------ reading the text back ------------------------ *)
(* the window a debugging text of durations stands for; <<"bad">> if none    *)
ReadPart(t) ==
    CASE Len(t) = 3 /\ t[1] = P("{") /\ t[3] = P("}") /\ t[2][1] = "num" -> <<t[2][2], t[2][2]>>
      [] Len(t) = 5 /\ t[1] = P("[") /\ t[3] = P(",") /\ t[5] = P("]") /\ t[2][1] = "num" /\ t[4][1] = "num" -> <<t[2][2], t[4][2]>>
      [] Len(t) = 5 /\ t[1] = P("[") /\ t[3] = P(",") /\ t[5] = P("[") /\ t[2][1] = "num" /\ t[4] = P("+oo") -> <<t[2][2], MAX>>
      [] Len(t) = 5 /\ t[1] = P("]") /\ t[3] = P(",") /\ t[5] = P("]") /\ t[2] = P("-oo") /\ t[4][1] = "num" -> <<NMAX, t[4][2]>>
      [] t = <<P("]"), P("-oo"), P(","), P("+oo"), P("[")>> -> <<NMAX, MAX>>
      [] OTHER -> <<"bad", "bad">>
RECURSIVE ReadFrom(_, _)
ReadFrom(t, j) ==
    IF j > Len(t) THEN << >>
    ELSE LET E == {e \in j .. Len(t) + 1 : (e = Len(t) + 1 \/ t[e] = P("U")) /\ \A k \in j .. e - 1 : t[k] # P("U")}
             e == CHOOSE e \in E : TRUE
         IN <<ReadPart(SubSeq(t, j, e - 1))>> \o ReadFrom(t, e + 1)
ReadWindow(t) == IF t = <<P("{"), P("}")>> THEN << >> ELSE ReadFrom(t, 1)
\* the debugging text of a window of durations
RECURSIVE Fill(_, _)
Fill(items, i) == IF i > Len(items) THEN << >> ELSE <<IF items[i][1] = "val" THEN <<"num", items[i][2]>> ELSE items[i]>> \o Fill(items, i + 1)
DebugText(w) == Fill(SetText(w), 1)

(* ------------------------ networks and agendas ------------------------- *)
(* lo[i+1][j+1] is the least delay from instant i to instant j               *)
Span(lo, i, j) == <<lo[i+1][j+1], Neg(lo[j+1][i+1])>>
Free(s) == ~Finite(s[1]) /\ ~Finite(s[2])
\* the debugging text is the whole matrix, one line per instant
Bare(row) == SelectSeq(row, LAMBDA x : x # P(","))
RowText(r) == <<P("[")>> \o Fill(FoldLeft(LAMBDA acc, a : acc \o PointText(a), << >>, r), 1) \o <<P("]")>>
NetDebug(lo, rows) ==
    LET R == SelectSeq(rows, LAMBDA x : x # << >>) IN
    Len(R) = Len(lo) /\ \A i \in 1 .. Len(lo) : Bare(R[i]) = RowText(lo[i])
\* one line: instant b minus instant a is in their span
IsT(tok, i) == tok = <<"T", W(i)>>
LinePair(n, row) == {p \in (0 .. n - 1) \X (0 .. n - 1) : p[1] # p[2] /\ Len(row) > 4 /\ IsT(row[1], p[2]) /\ row[2] = P("-") /\ IsT(row[3], p[1]) /\ row[4] = P("in")}
LineOK(lo, row) == \E p \in LinePair(Len(lo), row) :
                      /\ ~Free(Span(lo, p[1], p[2]))
                      /\ Says("v", "show", PartText(Span(lo, p[1], p[2])), SubSeq(row, 5, Len(row)))
Num(n) == <<"num", W(n)>>
NetShow(lo, rows) ==
    LET n == Len(lo)
        c == Len(rows) - 2
    IN /\ c >= 0
       /\ rows[1] = <<P("["), P("graph"), P("with"), Num(n), P("instants"), P("]")>>
       /\ rows[c + 2] = <<P("["), P("with"), Num(c), P("constraints"), P("]")>>
       /\ \A k \in 2 .. c + 1 : LineOK(lo, rows[k])
       \* every constrained pair has exactly one line
       /\ \A i \in 0 .. n - 1 : \A j \in 0 .. i - 1 :
             LET L == {k \in 2 .. c + 1 : LinePair(n, rows[k]) \cap {<<i, j>>, <<j, i>>} # {}} IN
             IF Free(Span(lo, i, j)) THEN L = {} ELSE \E k \in L : L = {k}
\* one constraint, from instant i to instant j
LinkDebug(lo, i, j, t) == t = <<P("("), <<"num", W(i)>>, P("->"), <<"num", W(j)>>, P(")"), P("=")>> \o Fill(PartText(Span(lo, i, j)), 1)
LinkShow(lo, i, j, t) == /\ Len(t) > 4 /\ IsT(t[1], j) /\ t[2] = P("-") /\ IsT(t[3], i) /\ t[4] = P("in")
                         /\ Says("v", "show", PartText(Span(lo, i, j)), SubSeq(t, 5, Len(t)))
\* one line per instant
AgendaSays(way, slots, rows) ==
    /\ Len(rows) = Len(slots)
    /\ \A i \in 1 .. Len(rows) : /\ Len(rows[i]) > 2 /\ IsT(rows[i][1], i - 1) /\ rows[i][2] = P("in")
                                 /\ WindowSays("t", way, slots[i], SubSeq(rows[i], 3, Len(rows[i])))
=============================================================================
