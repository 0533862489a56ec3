-------------------------- MODULE TraceScheduler --------------------------
(* Checks recorded agenda histories.  Each history starts with the graph it *)
(* is built on: n instants and constraints <<i, j, l, u>> (0-based).        *)
EXTENDS Scheduler, Json, IOUtils
PROP  == IOEnv.PROP
Hists == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES m, cur, base, h, l, ok
tvars == <<m, cur, base, h, l, ok>>

LayOne(x, k) == [[x EXCEPT ![k[1]+1][k[2]+1] = MaxOf(@, k[3])] EXCEPT ![k[2]+1][k[1]+1] = MaxOf(@, -k[4])]
Bare(n) == TLCEval([i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j THEN 0 ELSE -OO]])
\* all constraints together, or one after another when they are few
CloseAll(n, K) ==
    FoldLeft(LAMBDA y, k : TLCEval([i \in 1 .. n |-> [j \in 1 .. n |-> MaxOf(y[i][j], AddLo(y[i][k], y[k][j]))]]),
             FoldLeft(LayOne, Bare(n), K), [i \in 1 .. n |-> i])
RaiseOne(y, n, a, b, x) == TLCEval([i \in 1 .. n |-> [j \in 1 .. n |-> MaxOf(y[i][j], AddLo(AddLo(y[i][a], x), y[b][j]))]])
CloseEach(n, K) == FoldLeft(LAMBDA y, k : RaiseOne(RaiseOne(y, n, k[1]+1, k[2]+1, k[3]), n, k[2]+1, k[1]+1, -k[4]), Bare(n), K)
Closed(n, K) == IF 2 * Len(K) < n THEN CloseEach(n, K) ELSE CloseAll(n, K)

Accepted(o) == o.s \in {"U", "P"}
Refused(o)  == o.s \in {"R", "F"}
OneWindow == {"retain", "remove"}
AllWindows == {"deadline", "startline"}
\* what the request leaves, from the slots s
After(s, e) ==
    CASE e.o = "retain"    -> Keep(m, s, e.i + 1, e.w)
      [] e.o = "remove"    -> Drop(m, s, e.i + 1, e.w)
      [] e.o = "deadline"  -> KeepAll(m, s, Until(e.t))
      [] e.o = "startline" -> KeepAll(m, s, From(e.t))
      [] OTHER             -> s
SlotsOK(o) == \A i \in 1 .. Len(o.sl) : CanonList(o.sl[i])

\* s: [sp, ob, dead]; a: the agenda the request should leave
OutcomeOK(s, e, o, a) ==
    CASE PROP = "C25" -> e.o \in OneWindow \cup AllWindows =>
                            (Accepted(o) /\ Viable(a) /\ ~s.dead => o.sl = a)
      [] PROP = "C26" -> e.o \in OneWindow =>
                            /\ Accepted(o) \/ Refused(o)
                            /\ ~s.dead => (Accepted(o) <=> Viable(a))
                            /\ Refused(o) => o.sl = s.ob
                            /\ Accepted(o) => Viable(o.sl)
                            /\ Accepted(o) => (o.s = "U" <=> o.sl = s.ob)
      [] PROP = "C27" -> IF e.o \in AllWindows THEN
                            /\ Accepted(o) \/ Refused(o)
                            /\ ~s.dead => (Refused(o) <=> IF e.o = "deadline" THEN TooLate(s.sp, e.t) ELSE TooEarly(s.sp, e.t))
                            /\ Refused(o) => o.sl = s.ob
                            /\ Accepted(o) => (o.s = "U" <=> o.sl = s.ob)
                            /\ Accepted(o) /\ ~s.dead => o.sl = a
                         ELSE e.o = "look" /\ Len(s.ob) > 0 =>
                            /\ o.sl = s.ob /\ o.ln = Len(s.ob) /\ o.oor = 1
                            /\ Viable(s.ob) => o.lb = LatestBeginning(s.ob) /\ o.ee = EarliestEnding(s.ob)
Judged(e) == CASE PROP = "C25" -> e.o \in OneWindow \cup AllWindows
               [] PROP = "C26" -> e.o \in OneWindow
               [] PROP = "C27" -> e.o \in AllWindows \cup {"look"}
EventOK(s, e, a) == Judged(e) => e.x = 0 /\ \A i \in 1 .. Len(e.r) : OutcomeOK(s, e, e.r[i], a)

NextState(s, e, a) ==
    IF e.o = "look" \/ Len(e.r) = 0 THEN s
    ELSE LET o == e.r[1] IN
         IF Refused(o) THEN [s EXCEPT !.ob = o.sl]
         ELSE IF Viable(a) /\ ~s.dead THEN [s EXCEPT !.sp = a, !.ob = o.sl]
         ELSE [s EXCEPT !.dead = TRUE, !.ob = o.sl]

TInit == /\ h \in 1 .. Len(Hists) /\ l = 1 /\ ok = TRUE
         /\ m = Closed(Hists[h].n, Hists[h].k)
         /\ cur = [sp |-> Start(Hists[h].n), ob |-> Start(Hists[h].n), dead |-> \E i \in 1 .. Hists[h].n : m[i][i] > 0]
         /\ base = cur
TNext == /\ ok /\ l <= Len(Hists[h].e)
         /\ \E e \in {Hists[h].e[l]} :
            \E s \in {IF e.p = 1 THEN base ELSE cur} :
            \E a \in {IF s.dead THEN s.sp ELSE After(s.sp, e)} :
            \E t \in {NextState(s, e, a)} :
               /\ ok' = EventOK(s, e, a)
               /\ cur' = t
               /\ base' = IF e.p = 0 THEN t ELSE base
         /\ l' = l + 1 /\ h' = h /\ m' = m
TSpec == TInit /\ [][TNext]_tvars
TraceOK == ok
=============================================================================
