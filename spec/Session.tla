-------------------------------- MODULE Session --------------------------------
(* The abstract state machine of a user session with the representation       *)
(* algebra: a store of representations that only grows, and one action per    *)
(* public operation.  A stored object is described by                         *)
(*   kind   "irrep" | "mul" | "red" | "gen"   (form of the representation)    *)
(*   g      the group (structure of Groups.GroupOf, <<"SN", n>> for S_n and,  *)
(*          from n = 30 on, for groups given by generic representations:      *)
(*          C3, U(1), the Heisenberg group, the affine group, O(2))           *)
(*   alg    the basis of the Lie algebra it is written in                     *)
(*   d,n,h  dimension, number of continuous / discrete generators             *)
(* The module is used twice: SessionGen explores it to produce behaviours     *)
(* that are replayed in the library, and SessionTrace follows it along the    *)
(* recorded behaviour, adding the numerical content.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE GLie(_)
GLie(g) == CASE g[1] = "PROD" -> GLie(g[2]) + GLie(g[3])
             [] g[1] \in {"SU2", "SO3", "O3", "SU2Real"} -> 3
             [] g[1] \in {"SL2C", "SO13"} -> 6
             [] g[1] = "SUN" -> IF g[2] = 1 THEN 1 ELSE g[2] * g[2] - 1
             [] g[1] = "SN" /\ g[2] > 30 -> << 1, 3, 2, 1 >>[g[2] - 30]
             [] OTHER -> 0
RECURSIVE GDisc(_)
GDisc(g) == CASE g[1] = "PROD" -> GDisc(g[2]) + GDisc(g[3])
              [] g[1] \in {"O3", "Z2"} -> 1
              [] g[1] = "SN" -> IF g[2] \in {1, 31, 32, 33} THEN 0 ELSE IF g[2] \in {2, 30, 34} THEN 1 ELSE 2
              [] OTHER -> 0

Obj(kind, g, alg, d) == [kind |-> kind, g |-> g, alg |-> alg, d |-> d, n |-> GLie(g), h |-> GDisc(g)]

Structured == {"irrep", "mul", "red"}
Compatible(a, b) == a.g = b.g /\ a.alg = b.alg

RECURSIVE PowI(_, _)
PowI(x, n) == IF n = 0 THEN 1 ELSE LET y == PowI(x, n - 1) IN IF y > 100000 THEN y ELSE x * y   \* saturates

(* the effect of each operation on the store *)
MulD(a, m) == Obj("mul", a.g, a.alg, m * a.d)
RedD(as) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE as[i].d + S(i - 1)
            IN Obj("red", as[1].g, as[1].alg, S(Len(as)))
GenD(a) == Obj("gen", a.g, a.alg, a.d)
TpD(a, b) == Obj(IF a.kind \in Structured /\ b.kind \in Structured THEN "red" ELSE "gen", a.g, a.alg, a.d * b.d)
TpowD(a, n) == Obj(IF a.kind \in Structured THEN (IF n = 0 THEN "irrep" ELSE "red") ELSE "gen", a.g, a.alg, PowI(a.d, n))
DsumD(a, b) == Obj("gen", a.g, a.alg, a.d + b.d)
CbD(a) == Obj(IF a.kind \in Structured THEN "red" ELSE "gen", a.g, a.alg, a.d)
CaD(a, tag) == Obj("gen", a.g, tag, a.d)
ConjD_(a) == Obj("gen", a.g, a.alg, a.d)
GpD(a, b, tag) == Obj(IF a.kind = "irrep" /\ b.kind = "irrep" THEN "irrep" ELSE "gen", << "PROD", a.g, b.g >>, tag, a.d * b.d)
(* the name of the basis of the Lie algebra: changes are never identified *)
GpTag(a, b) == IF a.alg = "std" /\ b.alg = "std" THEN "std" ELSE "(" \o a.alg \o "," \o b.alg \o ")"
TrivD(a) == Obj(IF a.kind \in Structured THEN "irrep" ELSE "gen", a.g, a.alg, 1)
=============================================================================
