---------------------------- MODULE TraceEndless ---------------------------
(* Checks recorded runs of lazy chains over endless windows against Endless *)
EXTENDS Endless, Json, IOUtils
PROP  == IOEnv.PROP
Hists == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ok
tvars == <<h, l, ok>>
EventOK(e) == /\ e.x = 0
              /\ \E a \in {Tree(e.c)} : \A i \in 1 .. Len(e.r) : RunOK(e.r[i], a)
TInit == h \in 1 .. Len(Hists) /\ l = 1 /\ ok = TRUE
TNext == /\ ok /\ l <= Len(Hists[h].e)
         /\ \E e \in {Hists[h].e[l]} : ok' = EventOK(e)
         /\ l' = l + 1 /\ h' = h
TSpec == TInit /\ [][TNext]_tvars
TraceOK == ok
=============================================================================
