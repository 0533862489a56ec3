---------------------------- MODULE GenWindows ----------------------------
(* Prints every transition of the Windows machine (and every query, builder *)
(* and one-operator lazy chain) for the harness to execute on the code.     *)
EXTENDS Windows, TLC, IOUtils
OPS == IOEnv.OPS
GenN == atoi(IOEnv.NATOMS)

RECURSIVE MaskOf(_)
MaskOf(S) == IF S = {} THEN 0 ELSE LET x == Min(S) IN 2^x + MaskOf(S \ {x})

Emit(op, a, args) == PrintT(ToString(<<"T", op, MaskOf(a), args>>))
VARIABLES op, arg
vars == <<w, op, arg>>
GInit == w \in Window /\ op = "" /\ arg = << >>

Step(o, a) == op' = o /\ arg' = a
Sets == \E b \in Window :
           \/ Unite(b)   /\ Step("union", <<MaskOf(b)>>)
           \/ Meet(b)    /\ Step("inter", <<MaskOf(b)>>)
           \/ Exclude(b) /\ Step("excl", <<MaskOf(b)>>)
Compls == Complement /\ (Step("compl", << >>) \/ Step("compl2", << >>))
Cuts == \E t \in Atoms : \/ t > 0 /\ TruncBefore(t) /\ Step("tb", <<t>>)
                         \/ t < N-1 /\ TruncAfter(t) /\ Step("ta", <<t>>)
Rels == \E b \in Window, o \in {"has", "ov", "eq"} : UNCHANGED w /\ Step(o, <<MaskOf(b)>>)
Ords == \E b \in Window \ {{}} : w # {} /\ UNCHANGED w /\ Step("ord", <<MaskOf(b)>>)
Shapes == UNCHANGED w /\ Step("shape", << >>)
Lazies == \/ \E b \in Window, k \in {-1, -2, -4} : UNCHANGED w /\ Step("lazy", <<MaskOf(w), MaskOf(b), k>>)
          \/ UNCHANGED w /\ Step("lazy", <<MaskOf(w), -3>>)
Builds == w = {} /\ \E k \in Builders, p, q \in Atoms :
              BuildOK(k, p, q) /\ w' = Build(k, p, q) /\ Step("build " \o k, <<p, q>>)
GNext == /\ op = ""
         /\ \/ OPS = "set" /\ (Sets \/ Compls \/ Cuts)
            \/ OPS = "union" /\ Sets /\ op' = "union"
            \/ OPS = "inter" /\ Sets /\ op' = "inter"
            \/ OPS = "compl" /\ (Compls \/ (Sets /\ op' = "excl"))
            \/ OPS = "cut" /\ Cuts
            \/ OPS = "rel" /\ Rels
            \/ OPS = "eqs" /\ Rels /\ op' = "eq"
            \/ OPS = "ord" /\ Ords
            \/ OPS = "shape" /\ Shapes
            \/ OPS = "lazy" /\ Lazies
            \/ OPS = "build" /\ Builds
GSpec == GInit /\ [][GNext]_vars
EmitStep == Emit(op', w, arg')       \* ACTION_CONSTRAINT
=============================================================================
