----------------------------- MODULE RootSystems -----------------------------
(* The root systems of the classical families as sets of integer vectors.     *)
EXTENDS Modular

(* sum of the values of a function (FoldSet is not safe on unions of products) *)
SumOf(f) == LET ks == SetToSeq(DOMAIN f) IN FoldLeft(LAMBDA a, x : a + x, 0, [i \in 1..Len(ks) |-> f[ks[i]]])
Vec(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
Dot(u, v, n) == FoldLeft(LAMBDA s, i : s + u[i] * v[i], 0, Idx(n))
AddV(u, v, n) == Vec(n, LAMBDA i : u[i] + v[i])
NegV(u, n) == Vec(n, LAMBDA i : -u[i])
Unit(n, i, s) == Vec(n, LAMBDA k : IF k = i THEN s ELSE 0)
Ambient(f, r) == IF f = "A" THEN r + 1 ELSE r

Roots(f, r) ==
  LET n == Ambient(f, r)
      long == { AddV(Unit(n, p[1], p[3]), Unit(n, p[2], p[4]), n) : p \in { p \in (1..n) \X (1..n) \X {-1, 1} \X {-1, 1} : p[1] < p[2] } }
  IN CASE f = "A" -> { v \in long : FoldLeft(LAMBDA s, i : s + v[i], 0, Idx(n)) = 0 }
       [] f = "B" -> long \cup { Unit(n, p[1], p[2]) : p \in (1..n) \X {-1, 1} }
       [] f = "C" -> long \cup { Unit(n, p[1], p[2]) : p \in (1..n) \X {-2, 2} }
       [] f = "D" -> long
Positive(v, n) == LET nz == SelectSeq(Idx(n), LAMBDA i : v[i] # 0) IN v[nz[1]] > 0
PosRoots(f, r) == LET n == Ambient(f, r) IN { v \in Roots(f, r) : Positive(v, n) }
SimpleOf(P, n) == LET sums == { AddV(p[1], p[2], n) : p \in P \X P } IN P \ sums
Highest(P, n) == { v \in P : \A w \in P : AddV(v, w, n) \notin P }

(* the Cartan matrix of the family in the documented (Bourbaki) order of the simple roots, a_ij = 2 (a_i, a_j) / (a_i, a_i) *)
CartanOf(f, r, i, j) ==
  IF i = j THEN 2
  ELSE CASE f = "A" -> IF i - j \in {1, -1} THEN -1 ELSE 0
         [] f = "B" -> IF i = r /\ j = r - 1 THEN -2 ELSE IF i - j \in {1, -1} THEN -1 ELSE 0
         [] f = "C" -> IF i = r - 1 /\ j = r THEN -2 ELSE IF i - j \in {1, -1} THEN -1 ELSE 0
         [] f = "D" -> IF {i, j} = {r - 1, r} THEN 0 ELSE IF {i, j} = {r - 2, r} THEN -1 ELSE IF i - j \in {1, -1} THEN -1 ELSE 0
=============================================================================
