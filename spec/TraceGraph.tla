---------------------------- MODULE TraceGraph ----------------------------
(* Checks histories recorded from the real constraint graph against Graph.  *)
(* p = 0: the event moves the history on; p = 1: the event was tried on a   *)
(* copy of the graph the history stands at; p = 2: follows the event before.*)
(* r: distinct outcomes over forms and scales, z: outcomes of doing the     *)
(* same one constraint at a time, x: number of forms that panicked.         *)
EXTENDS Graph, TLC, Json, IOUtils
PROP  == IOEnv.PROP
Hists == ndJsonDeserialize(IOEnv.TRACE)

\* sp: what the accepted operations imply; ob: what the code showed last;
\* dead: the code accepted something impossible, sp means nothing any more;
\* fa: a fatal refusal happened
VARIABLES cur, base, h, l, ok
tvars == <<cur, base, h, l, ok>>
B2N(b) == IF b THEN 1 ELSE 0

Neg(x) == -x
G(o)    == [n |-> o.n, m |-> o.lo]
Well(o) == \A i, j \in 1 .. o.n : o.up[i][j] = Neg(o.lo[j][i])
Accepted(o) == o.s \in {"U", "P"}
Adding == {"add", "ext", "merge", "collect"}
Shaping == {"size", "trim", "fit", "reset", "same"}

\* past this size many constraints are added one after the other (the laws
\* of MCGraph say it is the same)
Large(s, e) == NeedAll(e.k, IF e.o = "merge" THEN Max2(s.n, e.m) ELSE s.n) > 100
OtherOf(e) == Bulk(Free(e.m), e.k)
Consistent(s, e) ==
    CASE e.o = "add"     -> Fits(s, e.a)
      [] e.o = "ext"     -> IF Large(s, e) THEN FitsEach(s, e.k) ELSE FitsAll(s, e.k)
      [] e.o = "collect" -> FitsAll(Empty, e.k)
      [] e.o = "merge"   -> IF Large(s, e) THEN FitsEach(Grow(s, e.m), e.k) ELSE Merges(s, OtherOf(e))
      [] OTHER           -> TRUE
\* for a consistent operation
After(s, e) ==
    CASE e.o = "add"     -> Add(s, e.a)
      [] e.o = "ext"     -> IF Large(s, e) THEN BulkEach(s, e.k) ELSE Bulk(s, e.k)
      [] e.o = "collect" -> Bulk(Empty, e.k)
      [] e.o = "merge"   -> IF Large(s, e) THEN BulkEach(Grow(s, e.m), e.k) ELSE Merge(s, OtherOf(e))
      [] e.o = "size"    -> Resize(s, e.m)
      [] e.o = "fit"     -> Fit(s)
      [] e.o = "reset"   -> Reset(s)
      [] OTHER           -> s

(* ------------------------------ the listings --------------------------- *)
Items(q) == {q[i] : i \in 1 .. Len(q)}
HintsOK(q) == /\ q.t = 0
              /\ Len(q.h) = Len(q.i) + 1
              /\ \A k \in 1 .. Len(q.h) :
                    LET left == Len(q.i) + 1 - k
                    IN q.h[k][1] <= left /\ (q.h[k][2] = -1 \/ left <= q.h[k][2])
ItemOK(g, c) == /\ c[1] < g.n /\ c[2] < g.n
                /\ <<c[3], c[4]>> = Span(g, c[1], c[2])
                /\ c[5] = 0 /\ c[6] = B2N(c[3] # -OO) /\ c[7] = B2N(c[4] # OO)
                /\ c[8] = B2N(c[3] # -OO /\ c[4] # OO) /\ c[9] = B2N(c[3] = c[4])
                /\ c[10] = B2N(c[3] = -OO /\ c[4] = OO) /\ c[11] = 1
QueriesOK(g, r) ==
    LET A == 0 .. g.n + 1 IN
    /\ r.n = g.n
    /\ \A i, j \in A : r.sp[i+1][j+1] = IF i < g.n /\ j < g.n THEN Span(g, i, j) ELSE <<-OO, OO>>
    /\ HintsOK(r.all)
    /\ \A i \in 1 .. Len(r.all.i) : ItemOK(g, r.all.i[i]) /\ r.all.i[i][1] # r.all.i[i][2]
    /\ LET P == {{i, j} : i \in A, j \in A}
           W == {s \in P : Cardinality(s) = 2 /\ \A i, j \in s : i # j => Linked(g, i, j)}
       IN /\ {{c[1], c[2]} : c \in Items(r.all.i)} = W
          /\ Len(r.all.i) = Cardinality(W)
    /\ \A i \in A :
          LET W == {j \in A : j # i /\ Linked(g, i, j)}
              f == r.fr[i+1] t == r.to[i+1]
          IN /\ HintsOK(f) /\ HintsOK(t)
             /\ \A c \in Items(f.i) : ItemOK(g, c) /\ c[1] = i
             /\ \A c \in Items(t.i) : ItemOK(g, c) /\ c[2] = i
             /\ {c[2] : c \in Items(f.i)} = W /\ Len(f.i) = Cardinality(W)
             /\ {c[1] : c \in Items(t.i)} = W /\ Len(t.i) = Cardinality(W)
    /\ \A i, j \in A :
          LET c == r.cs[i+1][j+1] IN
          IF Linked(g, i, j) THEN Len(c) = 1 /\ ItemOK(g, c[1]) /\ c[1][1] = i /\ c[1][2] = j ELSE c = << >>
    /\ \A i, j \in A : r.cm[i+1][j+1] = Order(g, i, j) /\ r.di[i+1][j+1] = B2N(Distinct(g, i, j))
    /\ \A q \in Items(r.eq) :
          LET v == B2N(Equiv(<<q[1], q[2], q[3], q[4]>>, <<q[5], q[6], q[7], q[8]>>))
          IN q[9] = v /\ q[10] = v
    \* the (first) constraints converted to values of their own, in four ways
    /\ LET m == IF Len(r.all.i) > 60 THEN 60 ELSE Len(r.all.i)
       IN /\ Len(r.cv) = 4 * m
          /\ \A w \in 0 .. 3, i \in 1 .. m : r.cv[w * m + i] = r.all.i[i]

(* ------------------------------ judgements ----------------------------- *)
\* s: [sp, ob, dead, fa] before the event; c, a: consistency and expected graph
Exact(s, e, o, c, a) ==
    Accepted(o) /\ c /\ ~s.dead => G(o) = a /\ Well(o)
Verdict(s, e, o, c) ==
    /\ o.s \in {"U", "P", "R", "F"} \cup (IF e.o = "collect" THEN {"X"} ELSE {})
    /\ ~s.dead => (Accepted(o) <=> c)
    /\ o.s = "R" => G(o) = s.ob
    /\ o.s = "F" => o.n = 0
Honest(s, e, o) ==
    /\ o.s = "U" => G(o) = s.ob
    /\ e.o \in {"add", "merge"} /\ o.s = "P" => G(o) # s.ob
    /\ e.o = "add" /\ e.a[3] <= e.a[4] /\ Implied(s.ob, e.a) => o.s = "U"
SeqOK(s, e, z, c, a) == ~s.dead => (z.s = "ok" <=> c) /\ (c => z.n = a.n /\ z.lo = a.m)

OutcomeOK(s, e, o, c, a) ==
    CASE PROP = "C19" -> e.o \in Adding \cup Shaping => Exact(s, e, o, c, a)
      [] PROP = "C20" -> /\ e.o \in Adding => Verdict(s, e, o, c)
                         /\ s.fa /\ e.o \in Adding \cup Shaping => Exact(s, e, o, c, a)
      [] PROP = "C21" -> e.o \in {"add", "ext", "merge"} => Honest(s, e, o)
      [] PROP = "C22" -> /\ e.o \in {"ext", "merge", "collect"} => (~s.dead => (Accepted(o) <=> c)) /\ Exact(s, e, o, c, a)
                         /\ e.o = "relist" => o.s = "P" /\ G(o) = s.ob
      [] PROP = "C23" -> e.o \in Shaping => G(o) = After(s.ob, e) /\ Well(o)
      [] PROP = "C24" -> e.o = "list" => QueriesOK(s.ob, o)

Judged(e) ==
    CASE PROP = "C19" -> e.o \in Adding \cup Shaping
      [] PROP = "C20" -> e.o \in Adding \cup Shaping
      [] PROP = "C21" -> e.o \in {"add", "ext", "merge"}
      [] PROP = "C22" -> e.o \in {"ext", "merge", "collect", "relist"}
      [] PROP = "C23" -> e.o \in Shaping
      [] PROP = "C24" -> e.o = "list"

EventOK(s, e, c, a) ==
    Judged(e) =>
        /\ e.x = 0
        /\ \A i \in 1 .. Len(e.r) : OutcomeOK(s, e, e.r[i], c, a)
        /\ PROP \in {"C20", "C22"} /\ e.o \in {"ext", "merge", "collect"} =>
              \A i \in 1 .. Len(e.z) :
                 IF PROP = "C22" THEN SeqOK(s, e, e.z[i], c, a) ELSE ~s.dead => (e.z[i].s = "ok" <=> c)

Changing(e) == e.o \in Adding \cup Shaping
NextState(s, e, c, a) ==
    IF ~Changing(e) \/ Len(e.r) = 0 THEN s
    ELSE LET o == e.r[1] IN
         IF o.s \in {"F", "X"} THEN [sp |-> Empty, ob |-> G(o), dead |-> FALSE, fa |-> TRUE]
         ELSE IF o.s = "R" THEN [s EXCEPT !.ob = G(o)]
         ELSE IF c /\ ~s.dead THEN [s EXCEPT !.sp = a, !.ob = G(o)]
         ELSE [s EXCEPT !.dead = TRUE, !.ob = G(o)]

Start == [sp |-> Empty, ob |-> Empty, dead |-> FALSE, fa |-> FALSE]
TInit == h \in 1 .. Len(Hists) /\ l = 1 /\ ok = TRUE /\ cur = Start /\ base = Start
TNext == /\ ok /\ l <= Len(Hists[h].e)
         /\ \E e \in {Hists[h].e[l]} :
            \E s \in {IF e.p = 1 THEN base ELSE cur} :
            \E c \in {~s.dead /\ Consistent(s.sp, e)} :
            \E a \in {IF c THEN After(s.sp, e) ELSE s.sp} :
            \E t \in {NextState(s, e, c, a)} :
               /\ ok' = EventOK(s, e, c, a)
               /\ cur' = t
               /\ base' = IF e.p = 0 THEN t ELSE base
         /\ l' = l + 1 /\ h' = h
TSpec == TInit /\ [][TNext]_tvars
TraceOK == ok
=============================================================================
