---------------------------- MODULE TraceRender ----------------------------
(* Checks texts and stored copies recorded from the real code: each history  *)
(* writes one window, time value, network or agenda in every way.            *)
EXTENDS Render, TLC, Json, IOUtils
PROP  == IOEnv.PROP
Hists == ndJsonDeserialize(IOEnv.TRACE)
TrMAX == <<1, <<32767, 32767, 32767, 32767, 7>>>>
TrSUB == <<1, <<0, 0, 1>>>>
ASSUME TrMAX = Sub(PowW(2, 63), W(1)) /\ TrSUB = PowW(2, 30)

VARIABLES h, l, ok
tvars == <<h, l, ok>>

PropOf(e) == CASE e.o = "store" -> "C29"
               [] e.o \in {"net", "link", "agenda"} -> "C30"
               [] OTHER -> "C28"
TextOK(H, e, r) ==
    CASE e.o = "text" /\ H.k = "win" -> WindowSays(e.t, e.y, H.a, r)
      [] e.o = "text" /\ H.k = "val" -> PointSays(e.t, e.y, H.a, r)
      \* read back equal, with the same parts
      [] e.o = "store" -> r = <<1, H.a>>
      [] e.o = "net" -> IF e.y = "debug" THEN NetDebug(H.a, r) ELSE NetShow(H.a, r)
      [] e.o = "link" -> IF e.y = "debug" THEN LinkDebug(H.a, e.i, e.j, r) ELSE LinkShow(H.a, e.i, e.j, r)
      [] e.o = "agenda" -> AgendaSays(e.y, H.a, r)
EventOK(H, e) == PROP = PropOf(e) => e.x = 0 /\ \A i \in 1 .. Len(e.r) : TextOK(H, e, e.r[i])

TInit == h \in 1 .. Len(Hists) /\ l = 1 /\ ok = TRUE
TNext == /\ ok /\ l <= Len(Hists[h].e)
         /\ ok' = EventOK(Hists[h], Hists[h].e[l])
         /\ l' = l + 1 /\ h' = h
TSpec == TInit /\ [][TNext]_tvars
TraceOK == ok
=============================================================================
