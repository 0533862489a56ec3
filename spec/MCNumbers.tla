----------------------------- MODULE MCNumbers -----------------------------
(* The laws of the time-point machine, exhaustively on a small range.        *)
EXTENDS Numbers, TLC
CONSTANT M                       \* a small infinite value (native)
MMax == W(M)
MSub4 == W(4)
VARIABLES v, u
All == {W(i) : i \in -M .. M}
Init == v \in All /\ u \in All
\* the moves of one value
Next == /\ u' \in All
        /\ v' \in {Plus(v, u), Minus(v, u), Neg(v), After(v), JustBefore(v), Times(v, u)}
        /\ ~(v' = Plus(v, u) /\ Opposite(v, u))
Spec == Init /\ [][Next]_<<v, u>>
Closed == TimeValues(v) /\ TimeValues(u)
Cardinality1(S) == \E x \in S : S = {x}
Laws ==
    /\ ~Opposite(v, u) => Plus(v, u) = Plus(u, v)
    /\ Plus(v, W(0)) = v
    /\ Neg(Neg(v)) = v
    /\ ~Opposite(v, u) => Neg(Plus(v, u)) = Plus(Neg(v), Neg(u))
    /\ Finite(v) /\ Finite(u) /\ Finite(Plus(v, u)) => Minus(Plus(v, u), u) = v
    /\ Finite(v) => Lt(v, After(v)) /\ Lt(JustBefore(v), v)
    /\ Finite(v) /\ Finite(After(v)) => JustBefore(After(v)) = v
    /\ Times(v, W(1)) = v /\ Times(v, W(-1)) = Neg(v) /\ Times(v, W(0)) = W(0)
    /\ Finite(v) => Times(v, W(2)) = Plus(v, v)
    /\ \A w \in All : Le(v, u) /\ ~Opposite(v, w) /\ ~Opposite(u, w) => Le(Plus(v, w), Plus(u, w))
    /\ \A w \in All : Le(v, u) /\ Sgn(w) >= 0 => Le(Times(v, w), Times(u, w))
    \* division undoes multiplication when nothing saturates, and only one quotient qualifies
    /\ Sgn(u) # 0 /\ Finite(Times(v, u)) /\ Finite(v) => OverOK(Times(v, u), u, v)
    /\ Sgn(u) # 0 => Cardinality1({r \in All : OverOK(v, u, r)})
    \* rounding
    /\ Finite(v) /\ Finite(u) /\ Sgn(u) > 0 =>
         \A w \in All : IsFloor(v, u, w) =>
            /\ Le(Down(v, u, w), v) /\ Lt(v, Add(Down(v, u, w), u))
            /\ Le(v, Up(v, u, w)) /\ Lt(Sub(Up(v, u, w), u), v)
            /\ Neg(Down(v, u, w)) = Up(Neg(v), u, CHOOSE x \in All : IsFloor(Neg(v), u, x))
    \* sequences: exactly one count of remaining dates
    /\ Finite(v) /\ Sgn(u) # 0 => \E n \in 1 .. 2 * M : /\ RemainOK(v, u, W(n))
                                   /\ \A k \in 1 .. 2 * M : k # n => ~RemainOK(v, u, W(k))
=============================================================================
