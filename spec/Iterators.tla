----------------------------- MODULE Iterators -----------------------------
(***************************************************************************)
(* The lazy window iterators as machines: each call to the iterator takes   *)
(* parts from its one or two sources, one at a time and in order, until it  *)
(* can give the next part of the result or say that there is none.          *)
(* Windows says what the result is; here is how it comes about: what has    *)
(* been taken from the sources at every moment, what is held back, and what *)
(* the size hint says.                                                      *)
(***************************************************************************)
EXTENDS Windows

VARIABLES b,      \* the second operand (w is the first)
          kind,   \* "u" union, "i" intersection, "c" complement of w
          st,     \* "init", "wait" (for the source side), "only" (that source is left), "end"
          side,   \* 1 or 2
          tmp,    \* the part held back, or << >>
          k,      \* how many parts were taken from each source
          out,    \* the parts given so far
          fresh   \* between two calls
ivars == <<b, kind, st, side, tmp, k, out, fresh>>

Src(s)   == IF s = 1 THEN Parts(w) ELSE Parts(b)
Other(s) == 3 - s
Result   == CASE kind = "u" -> Parts(Union(w, b)) [] kind = "i" -> Parts(Inter(w, b)) [] kind = "c" -> Parts(Compl(w))
Lesser(x, y)  == IF x <= y THEN x ELSE y
Greater(x, y) == IF x >= y THEN x ELSE y

\* the next part of source s, or << >> at its end
Ahead(s) == IF k[s] < Len(Src(s)) THEN Src(s)[k[s] + 1] ELSE << >>
Took(s)  == k' = [k EXCEPT ![s] = Lesser(k[s] + 1, Len(Src(s)))]
Took2    == k' = [s \in 1 .. 2 |-> Lesser(1, Len(Src(s)))]

Give(p)  == out' = Append(out, p) /\ fresh' = TRUE
Hold     == out' = out /\ fresh' = FALSE
Go(s, d, t) == st' = s /\ side' = d /\ tmp' = t
Over     == Go("end", 1, << >>) /\ out' = out /\ fresh' = TRUE

IInit == /\ w \in Window /\ kind \in {"u", "i", "c"}
         /\ b \in (IF kind = "c" THEN {{}} ELSE Window)
         /\ st = "init" /\ side = 1 /\ tmp = << >> /\ k = <<0, 0>> /\ out = << >> /\ fresh = TRUE

(* -------------------------------- union -------------------------------- *)
(* tmp was taken from the side not waited for                               *)
UMeet(x, y, s) == \* x comes from side s, y from the other one (or is held back)
    IF x[2] < y[1] - 1 THEN Give(x) /\ Go("wait", s, y)
    ELSE IF y[2] < x[1] - 1 THEN Give(y) /\ Go("wait", Other(s), x)
    ELSE Hold /\ Go("wait", IF x[2] <= y[2] THEN s ELSE Other(s), <<Lesser(x[1], y[1]), Greater(x[2], y[2])>>)
UStep ==
    \/ /\ st = "init" /\ Took2
       /\ IF Ahead(1) = << >> /\ Ahead(2) = << >> THEN Over
          ELSE IF Ahead(2) = << >> THEN Give(Ahead(1)) /\ Go("only", 1, << >>)
          ELSE IF Ahead(1) = << >> THEN Give(Ahead(2)) /\ Go("only", 2, << >>)
          ELSE UMeet(Ahead(1), Ahead(2), 1)
    \/ /\ st = "wait" /\ Took(side)
       /\ IF Ahead(side) = << >> THEN Give(tmp) /\ Go("only", Other(side), << >>)
          ELSE UMeet(Ahead(side), tmp, side)
    \/ /\ st = "only" /\ Took(side)
       /\ IF Ahead(side) = << >> THEN Over ELSE Give(Ahead(side)) /\ Go("only", side, << >>)

(* ----------------------------- intersection ---------------------------- *)
IMeet(x, y, s) ==
    LET c == <<Greater(x[1], y[1]), Lesser(x[2], y[2])>>
    IN /\ IF c[1] <= c[2] THEN Give(c) ELSE Hold
       \* the part that reaches further is kept
       /\ IF x[2] <= y[2] THEN Go("wait", s, y) ELSE Go("wait", Other(s), x)
IStep ==
    \/ /\ st = "init" /\ Took2
       /\ IF Ahead(1) = << >> \/ Ahead(2) = << >> THEN Over ELSE IMeet(Ahead(1), Ahead(2), 1)
    \/ /\ st = "wait" /\ Took(side)
       /\ IF Ahead(side) = << >> THEN Over ELSE IMeet(Ahead(side), tmp, side)

(* ------------------------------ complement ----------------------------- *)
(* tmp = <<c>> : c is the first atom after the last part taken              *)
Cursor == IF tmp = << >> THEN 0 ELSE tmp[1]
CStep ==
    /\ st = "init" /\ Took(1)
    /\ LET x == Ahead(1) IN
       IF x = << >> THEN IF Cursor >= N THEN Over ELSE Give(<<Cursor, N - 1>>) /\ Go("init", 1, <<N>>)
       ELSE /\ Go("init", 1, <<x[2] + 1>>)
            /\ IF Cursor < x[1] THEN Give(<<Cursor, x[1] - 1>>) ELSE Hold

INext == /\ CASE kind = "u" -> UStep [] kind = "i" -> IStep [] kind = "c" -> CStep
         /\ UNCHANGED <<w, b, kind>>
ISpec == IInit /\ [][INext]_<<w, ivars>> /\ WF_<<w, ivars>>(INext)

(* ------------------------------ properties ----------------------------- *)

Prefix   == Len(out) <= Len(Result) /\ \A i \in 1 .. Len(out) : out[i] = Result[i]
Complete == st = "end" => out = Result
Ends     == <>(st = "end")

Upto(s, x) == Cardinality({i \in 1 .. Len(Src(s)) : Src(s)[i][1] <= x})
\* a part is given as soon as the sources have been read one part beyond its end
Demand == fresh /\ out # << >> /\ st # "end" =>
             \A s \in 1 .. 2 : k[s] <= Upto(s, out[Len(out)][2] + 1) + 1
\* an intersection ends when either source does, having read the other one part beyond it
LastOf(s) == IF Src(s) = << >> THEN -1 ELSE Src(s)[Len(Src(s))][2]
Stops == kind = "i" /\ st = "end" => \A s \in 1 .. 2 : k[s] <= Upto(s, LastOf(Other(s))) + 1

Left(s) == Len(Src(s)) - k[s]
HintUp == CASE st = "end" -> 0
            [] kind = "u" -> (IF st = "only" THEN Left(side) ELSE Left(1) + Left(2) + (IF st = "init" THEN 0 ELSE 1))
            [] kind = "i" -> Left(1) + Left(2)
            [] kind = "c" -> IF Cursor >= N THEN 0 ELSE Left(1) + 1
HintLo == CASE st = "end" -> 0
            [] kind = "u" -> IF st = "only" THEN Left(side) ELSE 0
            [] kind = "i" -> 0
            [] kind = "c" -> IF Cursor >= N THEN 0 ELSE Greater(Left(1) - 1, 0)
Hints == fresh => /\ HintLo <= Len(Result) - Len(out)
                  /\ Len(Result) - Len(out) <= HintUp
=============================================================================
