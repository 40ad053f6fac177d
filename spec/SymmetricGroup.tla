--------------------------- MODULE SymmetricGroup ---------------------------
(* Exact integer matrices and the defining relations of S_n.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Idx(n) == [j \in 1..n |-> j]
FM(n, m, F(_, _)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> F(i, j)])])
Mul(A, B, n, k, m) == FM(n, m, LAMBDA i, j : FoldLeft(LAMBDA s, q : s + A[i][q] * B[q][j], 0, Idx(k)))
Id(n) == FM(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
RECURSIVE Pow(_, _, _)
Pow(A, n, k) == IF k = 0 THEN Id(n) ELSE LET h == Pow(A, n, k \div 2)  s == Mul(h, h, n, n, n) IN IF (k % 2) = 1 THEN Mul(s, A, n, n, n) ELSE s
Same(A, B, n, m) == \A i \in 1..n : \A j \in 1..m : A[i][j] = B[i][j]

SmallInts(M, n, m) == Len(M) = n /\ \A i \in 1..n : Len(M[i]) = m /\ \A j \in 1..m : M[i][j] \in -4..4
(* the generators as permutations of 1..n *)
Swap(n) == [i \in 1..n |-> IF i = 1 THEN 2 ELSE IF i = 2 THEN 1 ELSE i]
Cycle(n) == [i \in 1..n |-> (i % n) + 1]
GensOf(n) == IF n = 1 THEN << >> ELSE IF n = 2 THEN << Swap(2) >> ELSE << Swap(n), Cycle(n) >>
PermMat(p, n) == FM(n, n, LAMBDA i, j : IF i = p[j] THEN 1 ELSE 0)     \* e_j |-> e_p(j)
(* columns f_k = e_(k+1) - e_1 *)
Diff(n) == FM(n, n - 1, LAMBDA i, k : IF i = 1 THEN -1 ELSE IF i = k + 1 THEN 1 ELSE 0)

DimOf(kind, n) == CASE kind = "nat" -> n [] kind = "std" -> n - 1 [] kind = "triv" -> 1
Relations(H, n, d) ==
  CASE n = 1 -> Len(H) = 0
    [] n = 2 -> Len(H) = 1 /\ Same(Mul(H[1], H[1], d, d, d), Id(d), d, d)
    [] OTHER ->
         LET t == H[1]  c == H[2]
             inv == Pow(c, d, n - 1)
             tk(k) == Mul(Mul(Pow(c, d, k), t, d, d, d), Pow(c, d, n - k), d, d, d)
         IN /\ Same(Mul(t, t, d, d, d), Id(d), d, d)
            /\ Same(Pow(c, d, n), Id(d), d, d)
            /\ Same(Pow(Mul(c, t, d, d, d), d, n - 1), Id(d), d, d)
            /\ \A k \in 2..(n \div 2) : LET s == tk(k) IN Same(Mul(t, s, d, d, d), Mul(s, t, d, d, d), d, d)
            /\ Same(Mul(c, inv, d, d, d), Id(d), d, d)
(* not more than the relations: t # 1 and c of order n in the faithful ones *)
Faithful(H, n, d) ==
  n = 1 \/ (/\ ~Same(H[1], Id(d), d, d)
            /\ n = 2 \/ \A k \in 1..(n - 1) : ~Same(Pow(H[2], d, k), Id(d), d, d))
=============================================================================
