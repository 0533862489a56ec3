----------------------------- MODULE GenEndless ----------------------------
(* Prints chains over a few endless and a few finite windows.               *)
EXTENDS Endless, IOUtils
OPS == IOEnv.OPS
\* leaves: <<"e", <<start, period, length>>>> and <<"w", parts>>
Endlesses == {<<"e", x>> : x \in {<<0, 4, 1>>, <<1, 4, 2>>, <<3, 5, 2>>, <<-7, 10, 6>>, <<2, 30, 28>>, <<40, 9, 3>>}}
Finites   == {<<"w", x>> : x \in {<< >>, <<<<-OO, OO>>>>, <<<<6, 20>>>>, <<<<-OO, 11>>, <<13, 13>>>>, <<<<9, OO>>>>, <<<<0, 0>>, <<4, 6>>, <<30, 31>>>>}}
Leaves == Endlesses \cup Finites
Few    == {<<"e", <<0, 4, 1>>>>, <<"e", <<-7, 10, 6>>>>, <<"w", <<<<6, 20>>>>>>, <<"w", <<<<9, OO>>>>>>}
Bins   == {"u", "i", "x"}
Uns    == {<<"c", << >>>>, <<"t", -5>>, <<"t", 3>>}
Bin(k) == <<k, << >>>>
VARIABLE c
GInit == c = << >>
One == \/ \E a \in Leaves, b \in Leaves, k \in Bins : c' = <<a, b, Bin(k)>>
       \/ \E a \in Leaves, u \in Uns : c' = <<a, u>>
Two == \E a \in Few, b \in Few, d \in Few, k \in Bins, m \in Bins :
          \/ c' = <<a, b, Bin(k), d, Bin(m)>>
          \/ c' = <<a, b, d, Bin(k), Bin(m)>>
Mix == \E a \in Leaves, b \in Few, k \in Bins, u \in Uns, m \in Uns :
          \/ c' = <<a, u, b, Bin(k)>>
          \/ c' = <<a, b, u, Bin(k)>>
          \/ c' = <<a, b, Bin(k), u>>
          \/ c' = <<a, u, m>>
GNext == c = << >> /\ \/ OPS = "one" /\ One
                      \/ OPS = "two" /\ Two
                      \/ OPS = "mix" /\ Mix
GSpec == GInit /\ [][GNext]_c
EmitStep == PrintT(ToString(<<"T", c'>>))
=============================================================================
