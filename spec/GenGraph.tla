----------------------------- MODULE GenGraph -----------------------------
(* Walks the graph machine breadth first and prints, for every reachable    *)
(* graph, one history leading to it and every operation from it.            *)
EXTENDS Graph, TLC, IOUtils
OPS  == IOEnv.OPS
NMAX == atoi(IOEnv.NMAX)
WIDE == IOEnv.WIDE            \* "1": also negative bounds
Lows == IF WIDE = "1" THEN {-OO, -1, 0, 2} ELSE {-OO, 0, 1}
Ups  == IF WIDE = "1" THEN {-1, 0, 2, OO} ELSE {0, 1, OO}
Edges == {<<i, j, l, u>> : i \in 0 .. NMAX-1, j \in 0 .. NMAX-1, l \in Lows, u \in Ups}
Some == {<<0, 1, 1, OO>>, <<2, 1, 0, 0>>, <<1, 0, 0, 1>>, <<2, 0, 1, OO>>, <<1, 1, 0, 1>>}

VARIABLES g, hist, op
vars == <<g, hist, op>>
OnlyG == g
Small(h) == \A a, b \in 1 .. h.n : h.m[a][b] = -OO \/ h.m[a][b] \in -2 .. 2
Do(o, h) == op' = o /\ g' = h /\ hist' = Append(hist, o)
Look(o)  == op' = o /\ UNCHANGED <<g, hist>>

Init == g = Empty /\ hist = << >> /\ op = << >>
\* the moves that build the reachable graphs
Move == \/ \E k \in Edges : Fits(g, k) /\ Do(<<"add">> \o k, Add(g, k))
        \/ \E n \in 0 .. NMAX : Small(Resize(g, n)) /\ Do(<<"size", n>>, Resize(g, n))
\* further operations tried from each of them
Try == \/ OPS = "add" /\ \E k \in Edges : Look(<<"add">> \o k)
       \/ OPS = "bulk" /\ \E k \in Edges, q \in Some : Look(<<"ext", <<k, q>>>>)
       \/ OPS = "merge" /\ \E k \in Edges, n \in {0, NMAX} : Fits(Empty, k) /\ Look(<<"merge", n, <<k>>>>)
       \/ OPS = "size" /\ \/ \E n \in 0 .. NMAX + 2 : Look(<<"size", n>>) \/ Look(<<"trim", n>>)
                          \/ Look(<<"fit">>) \/ Look(<<"reset">>)
       \/ OPS = "list" /\ (Look(<<"list">>) \/ Look(<<"relist">>))
Next == Move \/ Try
Spec == Init /\ [][Next]_vars
Bounded == Small(g)                                   \* CONSTRAINT
\* moves are printed only in the families they belong to
Wanted == \/ OPS = op'[1] /\ op'[1] # "add"
          \/ OPS = "bulk" /\ op'[1] = "ext"
          \/ OPS = "size" /\ op'[1] \in {"size", "trim", "fit", "reset"} /\ hist' = hist
          \/ OPS = "list" /\ op'[1] \in {"list", "relist"}
          \/ OPS = "add" /\ op'[1] = "add" /\ hist' = hist
EmitStep == Wanted => PrintT(ToString(<<"T", hist, op'>>))    \* ACTION_CONSTRAINT
=============================================================================
