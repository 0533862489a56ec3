--------------------------- MODULE MCBigWindows ---------------------------
(* BigWindows against sets of instants, on a time line short enough to be   *)
(* enumerated: the instants are -(Big-1) .. Big-1.                          *)
EXTENDS BigWindows, FiniteSets
CONSTANT Big
MCMAX == W(Big)
MCSUB == W(2)

Ends  == {W(i) : i \in -Big .. Big}
Time  == -(Big - 1) .. Big - 1
Parts1 == {p \in Ends \X Ends : Sound(p)}
Windows == TLCEval({NormAll(S) : S \in {{}} \cup {{x} : x \in Parts1} \cup {{x, y} : x \in Parts1, y \in Parts1}})
Denote(A) == {t \in Time : \E a \in Pairs(A) : Le(a[1], W(t)) /\ Le(W(t), a[2])}
Few == TLCEval({NormAll(S) : S \in {{}} \cup {{x} : x \in Parts1}} \cup {NormAll({<<W(-Big), W(-Big + 1)>>, <<W(0), W(1)>>, <<W(Big - 1), W(Big)>>}), NormAll({<<W(-1), W(-1)>>, <<W(1), W(Big - 1)>>})})

VARIABLE w
Init == w = None
Next == w = None /\ w' \in Windows
Spec == Init /\ [][Next]_w

AloneLaws ==
    \E D \in {Denote(w)} :
    /\ Canon(w)
    /\ Canon(Compl(w)) /\ Denote(Compl(w)) = Time \ D /\ Same(Compl(Compl(w)), w)
    /\ Canon(Opp(w)) /\ Denote(Opp(w)) = {-t : t \in D}
    /\ (D = {}) <=> (w = None)
    /\ (D = Time) <=> Same(w, All)
    /\ \A t \in Time : /\ Denote(CutBefore(w, W(t))) = {x \in D : x >= t}
                       /\ Denote(CutAfter(w, W(t))) = {x \in D : x <= t}
PairLaws ==
    \E D \in {Denote(w)} : \A v \in Few : \E F \in {Denote(v)} :
        /\ Canon(Cup(w, v)) /\ Denote(Cup(w, v)) = D \cup F
        /\ Canon(Cap(w, v)) /\ Denote(Cap(w, v)) = D \cap F
        /\ Canon(Excl(w, v)) /\ Denote(Excl(w, v)) = D \ F
        /\ Same(w, v) <=> D = F
        /\ Has(Snap(w), Snap(v)) <=> F \subseteq D
        /\ Has(w, v) => F \subseteq D
        /\ Overlap(w, v) <=> D \cap F # {}
        /\ w # None /\ v # None => (Before(w, v) <=> \A x \in D, y \in F : x < y)
\* sums: of the instants, when no bound leaves the range; missing bounds stay missing
SumLaws ==
    \A v \in Few : SumInside(w, v) =>
        \E s \in {Sum(w, v)} :
        /\ Canon(s)
        /\ ({x + y : x \in Denote(w), y \in Denote(v)} \cap Time) \subseteq Denote(s)
        /\ (\A a \in Pairs(w) \cup Pairs(v) : Finite(a[1]) /\ Finite(a[2])) => Denote(s) = {x + y : x \in Denote(w), y \in Denote(v)}
        /\ s = Sum(v, w)
ScaleLaws ==
    \A k \in -3 .. 3 :
        /\ MulInside(w, W(k)) => \E s \in {Scale(w, W(k))} :
              /\ Canon(s)
              /\ {x * k : x \in Denote(w)} \cap Time \subseteq Denote(s)
              /\ Scale(s, W(-1)) = Scale(w, W(-k))
        /\ k # 0 => \E q \in {[i \in 1 .. Len(w) |-> [j \in {1, 2} |-> CHOOSE r \in Ends : OverOK(w[i][j], W(k), r)]]} :
              /\ QuotOK(w, W(k), q)
              /\ Canon(Divide(w, W(k), q))
              /\ {(IF x < 0 THEN -1 ELSE 1) * (IF k < 0 THEN -1 ELSE 1) * ((IF x < 0 THEN -x ELSE x) \div (IF k < 0 THEN -k ELSE k)) : x \in Denote(w)} \subseteq Denote(Divide(w, W(k), q))
BuildLaws ==
    w = None =>
    \A a \in -Big .. Big, b \in -Big .. Big, k \in Builders :
        \E s \in {Build(k, W(a), W(b))} :
            /\ Canon(s)
            /\ Denote(s) = {t \in Time : CASE k \in {"new", "a..=b"} -> a <= t /\ t <= b
                                           [] k = "single" -> t = a
                                           [] k \in {"after", "a.."} -> a <= t
                                           [] k = "before" -> t <= a
                                           [] k = "a..b" -> a <= t /\ t < b
                                           [] k = "..b" -> t < b
                                           [] k = "..=b" -> t <= b
                                           [] k = "all" -> TRUE
                                           [] k = "empty" -> FALSE}
GrowLaws ==
    /\ Len(w) = 1 /\ Finite(w[1][1]) /\ Finite(w[1][2]) =>
          \A r \in -Big + 1 .. Big - 1 : r >= 0 =>
              Denote(Grow(w, W(r))) = {t \in Time : \E x \in Denote(w) : x - r <= t /\ t <= x + r}
    /\ w = None => \A c \in Time, r \in -2 .. Big : Denote(Around(W(c), W(r))) = {t \in Time : r = Big \/ (r >= 0 /\ c - r <= t /\ t <= c + r)}
=============================================================================
