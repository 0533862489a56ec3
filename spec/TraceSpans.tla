---------------------------- MODULE TraceSpans -----------------------------
(* Checks histories recorded from the real code against Spans.  An event    *)
(* carries the operation, its operands, the distinct outcomes r over every  *)
(* API form, numeric type and placement, and the number x of panics.        *)
EXTENDS Spans, Json, IOUtils
PROP  == IOEnv.PROP
Hists == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES w, h, l, ok
tvars == <<w, h, l, ok>>

PropOf(o) ==
    CASE o \in {"sum", "diff"} -> {"C01", "C11"}
      [] o = "neg" -> {"C01", "C11"}
      [] o \in {"mul", "div", "mulq", "divq"} -> {"C01", "C12"}
      [] o \in {"around", "grow"} -> {"C10"}
      [] o = "len" -> {"C08"}
      [] o = "chain" -> {"C05"}
Expected(e) ==
    CASE e.o = "sum"  -> Sum(e.a, e.b)
      [] e.o = "diff" -> Diff(e.a, e.b)
      [] e.o = "neg"  -> Neg(e.a)
      [] e.o = "mul"  -> Mul(e.a, e.k)
      [] e.o = "div"  -> Div(e.a, e.k)
      [] e.o = "mulq" -> MulQ(e.a, e.k, e.q)
      [] e.o = "divq" -> DivQ(e.a, e.k, e.q)
      [] e.o = "around" -> Around(e.k, e.q)
      [] e.o = "grow" -> Grow(e.a, e.k)
      [] e.o = "len"  -> Length(e.a)
      [] e.o = "chain" -> EvalChain(e.c)
LazyOK(r, p) ==
    /\ r.p = p
    /\ r.t = 0
    /\ Len(r.s) = Len(r.p) + 1
    /\ \A i \in 1 .. Len(r.s) :
          LET left == Len(r.p) + 1 - i
          IN r.s[i][1] <= left /\ (r.s[i][2] = -1 \/ left <= r.s[i][2])
OutcomeOK(e, r, ex) == IF PROP = "C01" THEN CanonList(r)
                       ELSE IF e.o = "chain" THEN LazyOK(r, ex) ELSE r = ex
EventOK(e) == PROP \in PropOf(e.o) =>
                 /\ e.x = 0
                 /\ \E ex \in {Expected(e)} : \A i \in 1 .. Len(e.r) : OutcomeOK(e, e.r[i], ex)
Moving == {"sum", "diff", "neg", "mul", "div"}
HasA(e) == e.o # "chain"
TInit == /\ h \in 1 .. Len(Hists) /\ l = 1 /\ ok = TRUE
         /\ w = IF HasA(Hists[h].e[1]) THEN Hists[h].e[1].a ELSE << >>
TNext == /\ ok /\ l <= Len(Hists[h].e)
         /\ \E e \in {Hists[h].e[l]} :
              /\ ok' = (EventOK(e) /\ (HasA(e) => e.a = w /\ CanonList(e.a)))
              /\ w' = IF e.o \in Moving /\ Len(e.r) > 0 THEN e.r[1] ELSE w
         /\ l' = l + 1 /\ h' = h
TSpec == TInit /\ [][TNext]_tvars
TraceOK == ok
=============================================================================
