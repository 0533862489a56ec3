------------------------------ MODULE MCSpans ------------------------------
(* Spans against their meaning: a window is the set of its integers.        *)
EXTENDS Spans
CONSTANT B
VARIABLE w
Bounds == (-B .. B)
Ints   == {<<a, b>> \in (Bounds \cup {-OO}) \X (Bounds \cup {OO}) : a <= b}
\* all windows of at most two parts, given by arbitrary pairs
Windows == {Norm(S) : S \in {{}} \cup {{x} : x \in Ints} \cup {{x, y} : x \in Ints, y \in Ints}}
X      == -3 * B - 2 .. 3 * B + 2
Far    == -9 * B - 6 .. 9 * B + 6      \* stands for all integers
Has(A, x) == \E i \in 1 .. Len(A) : A[i][1] <= x /\ x <= A[i][2]

Init == w = << >>
Next == \E v \in Windows : w = << >> /\ w' = v
Spec == Init /\ [][Next]_w

Kinds == Windows
AlgebraLaws ==
    /\ CanonList(w) /\ CanonList(Compl(w)) /\ CanonList(Neg(w))
    /\ \A x \in X : /\ Has(Compl(w), x) <=> ~Has(w, x)
                    /\ Has(Neg(w), x) <=> Has(w, -x)
Few == {Norm({x}) : x \in Ints} \cup {Norm({<<-OO, 0>>, <<2, 2>>}), Norm({<<-B, -B>>, <<1, OO>>}), << >>}
PairLaws ==
    \A v \in Few :
        /\ CanonList(Cap(w, v)) /\ CanonList(Cup(w, v)) /\ CanonList(Sum(w, v)) /\ CanonList(Diff(w, v))
        /\ \A x \in X :
              /\ Has(Cap(w, v), x) <=> (Has(w, x) /\ Has(v, x))
              /\ Has(Cup(w, v), x) <=> (Has(w, x) \/ Has(v, x))
              /\ Has(Sum(w, v), x) <=> \E a \in Far : Has(w, a) /\ Has(v, x - a)
              /\ Has(Diff(w, v), x) <=> \E a \in Far : Has(w, a) /\ Has(v, a - x)
ScaleLaws ==
    \A k \in {-3, -2, -1, 1, 2, 3} :
        /\ CanonList(Mul(w, k)) /\ CanonList(Div(w, k))
        /\ \A x \in Far : Has(w, x) => Has(Mul(w, k), k * x)
        /\ \A i \in 1 .. Len(w) : \A j \in 1 .. 2 : Fin(w[i][j]) => Has(Mul(w, k), k * w[i][j])
        /\ Len(Mul(w, k)) = Len(w) /\ Mul(Mul(w, k), -1) = Mul(w, -k) /\ Div(Mul(w, k), k) = w
        /\ \A x \in -B .. B : Has(Div(w, k), x) <=> \E a \in Far : Has(w, a) /\ Quot(a, k) = x
        /\ Exact(w, 1, k) => Mul(MulQ(w, 1, k), k) = Mul(w, 1) \/ Len(MulQ(w, 1, k)) < Len(w)
        /\ MulQ(w, k, 1) = Mul(w, k)
=============================================================================
