--------------------------- MODULE TraceWindows ---------------------------
(* Checks histories recorded from the real code against Windows.            *)
(* Each line of the trace is one history; each event carries the operation, *)
(* the operands as observed, the list r of distinct outcomes over every API *)
(* form and embedding, and the number x of forms that panicked.             *)
EXTENDS Windows, TLC, Json, IOUtils
PROP  == IOEnv.PROP
TrN   == atoi(IOEnv.NATOMS)
Hists == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, ok
tvars == <<w, h, l, ok>>

(* the atoms that hold no finite instant: at the edges of the representable  *)
(* range the two rays may be empty, and then it is free to include them or   *)
(* not, but a part made of them alone denotes nothing and is not allowed     *)
Vacuous == IF "EDGE" \in DOMAIN IOEnv /\ IOEnv.EDGE = "1" THEN {0, N-1} ELSE {}
Solid(p) == \A i \in 1 .. Len(p) : ~ ((p[i][1] .. p[i][2]) \subseteq Vacuous)
MeansIn(p, W) == /\ Proper(p)
                 /\ Solid(p)
                 /\ Denote(p) \ Vacuous = W \ Vacuous
CanonicalIn(p) == Canonical(p) /\ Solid(p)
\* (the canonical parts of a window are the only canonical list that means it)
PartsIn(p, W) == CanonicalIn(p) /\ MeansIn(p, W)

SetOps == {"union", "inter", "excl", "compl", "compl2", "collect", "build"}
PropOf(e) ==
    CASE e.o = "union" -> {"C01", "C02"}
      [] e.o = "inter" -> {"C01", "C03"}
      [] e.o \in {"compl", "compl2", "excl"} -> {"C01", "C04"}
      [] e.o \in {"lazy", "jump"} -> {"C05"}
      [] e.o \in {"tb", "ta"} -> {"C01", "C06"}
      [] e.o \in {"has", "ov"} -> {"C07"}
      [] e.o = "eq" -> {"C01", "C07"}
      [] e.o = "shape" -> {"C08"}
      [] e.o = "ord" -> {"C09"}
      [] e.o \in {"build", "collect"} -> {"C01", "C10"}

(* the window an operation must produce from the operands *)
Expected(e) ==
    CASE e.o = "union"  -> Union(Denote(e.a), Denote(e.b))
      [] e.o = "inter"  -> Inter(Denote(e.a), Denote(e.b))
      [] e.o = "excl"   -> Excl(Denote(e.a), Denote(e.b))
      [] e.o = "compl"  -> Compl(Denote(e.a))
      [] e.o = "compl2" -> Denote(e.a)
      [] e.o = "tb"     -> CutBefore(Denote(e.a), e.t)
      [] e.o = "ta"     -> CutAfter(Denote(e.a), e.t)
      [] e.o = "collect" -> UNION {Denote(e.l[i]) : i \in 1 .. Len(e.l)}
      [] e.o = "build"  -> Build(e.k, e.xy[1], e.xy[2])
      [] OTHER          -> w

ShapeOf(A, u) ==
    [em |-> B2N(A = {}), si |-> B2N(Singleton(A, u)), al |-> B2N(A = Full),
     cv |-> B2N(Cardinality(FirstsOf(A)) <= 1), cn |-> Cardinality(FirstsOf(A)),
     lb |-> B2N(LowBounded(A)), ub |-> B2N(UpBounded(A)), bd |-> B2N(LowBounded(A) /\ UpBounded(A)),
     lo |-> IF A = {} THEN 0 ELSE Min(A), up |-> IF A = {} THEN 0 ELSE Max(A),
     en |-> Parts(Envelope(A))]
SeqSet(s) == {s[i] : i \in 1 .. Len(s)}
\* (JSON numbers and the record above compare field by field)
SameShape(r, s) == \A f \in {"em", "si", "al", "cv", "cn", "lb", "ub", "bd", "lo", "up", "en"} : r[f] = s[f]

At(p, i) == IF i >= 1 /\ i <= Len(p) THEN <<p[i]>> ELSE << >>
(* a complete lazy run: parts, hints before every step, nothing after the end *)
LazyOK(r, A) ==
    /\ PartsIn(r.p, A)
    /\ r.t = 0
    /\ Len(r.s) = Len(r.p) + 1
    /\ \A i \in 1 .. Len(r.s) :
          LET left == Len(r.p) + 1 - i
          IN r.s[i][1] <= left /\ (r.s[i][2] = -1 \/ left <= r.s[i][2])
JumpOK(r, A) ==
    LET p == Parts(A) IN Vacuous # {} \/
    /\ r.c = Len(p)
    /\ r.l = At(p, Len(p))
    /\ \A k \in 1 .. 4 : r.n[k] = <<At(p, k), At(p, k + 1)>>

OutcomeOK(e, r) ==
    CASE PROP = "C01" ->
            IF e.o = "eq" THEN r = B2N(Denote(e.a) = Denote(e.b))
            ELSE IF e.o \in {"tb", "ta"} THEN CanonicalIn(r.p) ELSE CanonicalIn(r)
      [] e.o \in SetOps -> MeansIn(r, Expected(e))
      [] e.o \in {"tb", "ta"} -> /\ MeansIn(r.p, Expected(e))
                                 /\ r.c = B2N(Expected(e) # Denote(e.a))
      [] e.o = "has" -> r = B2N(Has(Denote(e.a), Denote(e.b)))
      [] e.o = "ov"  -> r = B2N(Overlap(Denote(e.a), Denote(e.b)))
      [] e.o = "eq"  -> r = B2N(Denote(e.a) = Denote(e.b))
      [] e.o = "ord" -> LET A == Denote(e.a) B == Denote(e.b) IN
                        r = <<B2N(Before(A, B)), B2N(Before(B, A)), B2N(Before(A, B) \/ A = B),
                              B2N(Before(B, A) \/ A = B), Compare(A, B)>>
      [] e.o = "shape" -> SameShape(r, ShapeOf(Denote(e.a), SeqSet(e.u)))
      [] e.o = "lazy" -> LazyOK(r, Eval(e.c))
      [] e.o = "jump" -> JumpOK(r, Eval(e.c))

EventOK(e) == PROP \in PropOf(e) =>
                 /\ e.x = 0
                 /\ \A i \in 1 .. Len(e.r) : OutcomeOK(e, e.r[i])

(* the state after the event, as observed (the harness ends a history whose *)
(* outcomes disagree or make no sense, so only the last event may deviate)  *)
Observed(e) == IF Len(e.r) = 0 THEN w
               ELSE IF e.o \in {"union", "inter", "excl", "compl", "compl2", "collect", "build"} THEN
                        (IF Proper(e.r[1]) THEN Denote(e.r[1]) ELSE w)
               ELSE IF e.o \in {"tb", "ta"} THEN (IF Proper(e.r[1].p) THEN Denote(e.r[1].p) ELSE w)
               ELSE w

HasA(e) == e.o \notin {"collect", "build", "lazy", "jump"}
TInit == /\ h \in 1 .. Len(Hists) /\ l = 1 /\ ok = TRUE
         /\ w = IF HasA(Hists[h].e[1]) THEN Denote(Hists[h].e[1].a) ELSE {}
TNext == /\ ok /\ l <= Len(Hists[h].e)
         /\ LET e == Hists[h].e[l] IN
              /\ ok' = (EventOK(e) /\ (HasA(e) => Denote(e.a) = w))
              /\ w' = Observed(e)
         /\ l' = l + 1 /\ h' = h
TSpec == TInit /\ [][TNext]_tvars
TraceOK == ok
=============================================================================
