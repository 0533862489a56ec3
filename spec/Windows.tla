------------------------------ MODULE Windows ------------------------------
(***************************************************************************)
(* Time windows over a finite partition of the (discrete, two-way          *)
(* unbounded) time line into atoms 0 .. N-1.  Atom 0 is a ray to -oo and   *)
(* atom N-1 a ray to +oo; every atom in between is a bounded run of ticks. *)
(* A window is a set of atoms; what the library holds or yields is a list  *)
(* of parts <<lo, hi>>, pairs of first and last atom.                      *)
(*                                                                         *)
(* The state machine below is the life of one window: it starts as any     *)
(* window and is changed by the set-valued public operations.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT N
ASSUME N \in Nat /\ N >= 3

Atoms  == 0 .. N-1
Full   == Atoms
Window == SUBSET Atoms

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

(* ---------------------------- representation --------------------------- *)

(* canonical parts: maximal runs, in order *)
FirstsOf(W) == {a \in W : (a - 1) \notin W}
RECURSIVE PartsFrom(_, _)
PartsFrom(W, F) ==
    IF F = {} THEN << >>
    ELSE LET lo == Min(F)
             hi == Min({a \in W : a >= lo /\ (a + 1) \notin W})
         IN <<<<lo, hi>>>> \o PartsFrom(W, F \ {lo})
Parts(W) == PartsFrom(W, FirstsOf(W))

(* a list of parts that makes sense at all: non-empty parts inside the line *)
Proper(p) == \A i \in 1 .. Len(p) : p[i][1] <= p[i][2] /\ p[i][1] \in Atoms /\ p[i][2] \in Atoms

(* chronological, disjoint, and any two neighbours separated by an absent atom *)
Canonical(p) == /\ Proper(p)
                /\ \A i \in 1 .. Len(p) - 1 : p[i][2] + 1 < p[i+1][1]

Denote(p) == UNION {(p[i][1]) .. (p[i][2]) : i \in 1 .. Len(p)}

(* an observed list of parts denotes exactly the window *)
Means(p, W) == Proper(p) /\ Denote(p) = W

(* ------------------------------ operations ----------------------------- *)

Union(A, B)      == A \cup B
Inter(A, B)      == A \cap B
Compl(A)         == Full \ A
Excl(A, B)       == A \ B
CutBefore(A, t)  == {a \in A : a >= t}
CutAfter(A, t)   == {a \in A : a <= t}

(* ------------------------------- relations ----------------------------- *)

Has(A, B)      == B \subseteq A
Overlap(A, B)  == A \cap B # {}
Before(A, B)   == \A a \in A, b \in B : a < b       \* for non-empty windows
(* outcome of the partial comparison: -1, 1, 0, or 2 for "incomparable" *)
Compare(A, B)  == IF Before(A, B) THEN -1 ELSE IF Before(B, A) THEN 1 ELSE IF A = B THEN 0 ELSE 2

(* -------------------------------- shape -------------------------------- *)

B2N(b) == IF b THEN 1 ELSE 0
LowBounded(A) == A # {} /\ 0 \notin A
UpBounded(A)  == A # {} /\ (N-1) \notin A
Envelope(A)   == IF A = {} THEN {} ELSE Min(A) .. Max(A)
(* units: the atoms that are one tick wide *)
Singleton(A, units) == Cardinality(A) = 1 /\ A \subseteq units

(* ------------------------------- builders ------------------------------ *)
(* positions 0 .. N-1: 0 is -oo, N-1 is +oo, the others the one-tick atoms *)

Infinite(p) == p = 0 \/ p = N-1
Build(k, p, q) ==
    CASE k = "new"    -> IF p > q \/ (p = q /\ Infinite(p)) THEN {} ELSE p .. q
      [] k = "single" -> IF Infinite(p) THEN {} ELSE {p}
      [] k = "after"  -> IF p = N-1 THEN {} ELSE p .. N-1
      [] k = "before" -> IF p = 0 THEN {} ELSE 0 .. p
      [] k = "all"    -> Full
      [] k = "empty"  -> {}
      [] k = "a..b"   -> IF q = N-1 /\ p < q THEN p .. q ELSE {a \in Atoms : p <= a /\ a < q}
      [] k = "a..=b"  -> {a \in Atoms : p <= a /\ a <= q}
      [] k = "a.."    -> p .. N-1
      [] k = "..b"    -> {a \in Atoms : a < q}
      [] k = "..=b"   -> 0 .. q
(* positions for which the builder is meaningful (no infinite point as an element) *)
BuildOK(k, p, q) ==
    CASE k \in {"new"}                -> TRUE
      [] k \in {"single", "after", "before"} -> q = 0
      [] k \in {"all", "empty"}       -> p = 0 /\ q = 0
      [] k = "a..b"                   -> TRUE
      [] k = "a..=b"                  -> ~ (p = q /\ Infinite(p))
      [] k = "a.."                    -> ~ Infinite(p) /\ q = 0
      [] k \in {"..b", "..=b"}        -> ~ Infinite(q) /\ p = 0 
Builders == {"new", "single", "after", "before", "all", "empty", "a..b", "a..=b", "a..", "..b", "..=b"}

(* lazy chains: postfix expressions over windows *)
RECURSIVE EvalRPN(_, _, _)
EvalRPN(c, i, st) ==
    IF i > Len(c) THEN st[Len(st)]
    ELSE LET n == Len(st)
             k == c[i].k
         IN EvalRPN(c, i + 1,
              IF k = "w" THEN Append(st, Denote(c[i].w))
              ELSE IF k = "c" THEN Append(SubSeq(st, 1, n - 1), Compl(st[n]))
              ELSE Append(SubSeq(st, 1, n - 2),
                     IF k = "u" THEN Union(st[n-1], st[n])
                     ELSE IF k = "i" THEN Inter(st[n-1], st[n])
                     ELSE Excl(st[n-1], st[n])))
Eval(c) == EvalRPN(c, 1, << >>)

(* ---------------------------- state machine ---------------------------- *)

VARIABLE w
Init == w \in Window
Unite(b)     == w' = Union(w, b)
Meet(b)      == w' = Inter(w, b)
Exclude(b)   == w' = Excl(w, b)
Complement   == w' = Compl(w)
TruncBefore(t) == w' = CutBefore(w, t)
TruncAfter(t)  == w' = CutAfter(w, t)
Next == \/ \E b \in Window : Unite(b) \/ Meet(b) \/ Exclude(b)
        \/ Complement
        \/ \E t \in Atoms : TruncBefore(t) \/ TruncAfter(t)
Spec == Init /\ [][Next]_w

(* design properties, checked exhaustively for small N *)
TypeOK      == w \in Window
Round       == Denote(Parts(w)) = w
CanonParts  == Canonical(Parts(w))
(* a canonical list is determined by its instants: the only one among all lists *)
DoubleCompl == Compl(Compl(w)) = w
DeMorgan    == \A b \in Window : /\ Compl(Union(w, b)) = Inter(Compl(w), Compl(b))
                                 /\ Excl(w, b) = Inter(w, Compl(b))
                                 /\ Has(w, b) <=> Union(w, b) = w
                                 /\ Overlap(w, b) <=> Parts(Inter(w, b)) # << >>
PartsInject == \A b \in Window : Parts(b) = Parts(w) => b = w
TruncLaws   == \A t \in Atoms : /\ CutBefore(w, t) = Inter(w, t .. N-1)
                                /\ CutAfter(w, t) = Inter(w, 0 .. t)
OrderLaws   == \A b \in Window : (w # {} /\ b # {}) =>
                  /\ ~ (Before(w, b) /\ Before(b, w))
                  /\ Before(w, b) => Max(w) < Min(b)
                  /\ \A c \in Window : (c # {} /\ Before(w, b) /\ Before(b, c)) => Before(w, c)
ShapeLaws   == /\ (w = Full) <=> (w # {} /\ ~LowBounded(w) /\ ~UpBounded(w) /\ Len(Parts(w)) = 1)
               /\ w \subseteq Envelope(w)
               /\ \A b \in Window : (w \subseteq b /\ Len(Parts(b)) <= 1) => Envelope(w) \subseteq b
=============================================================================
