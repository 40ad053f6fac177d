------------------------------ MODULE Patterns ------------------------------
(* Gelfand-Tsetlin patterns: sequences of rows, the first one of length N     *)
(* being the highest weight, each next row one shorter and interleaving the   *)
(* previous; weights and the squares of the ladder coefficients.              *)
EXTENDS Reps

RECURSIVE RowsBelow(_)      \* all rows that interleave S, as a set
RowsBelow(S) ==
  IF Len(S) = 1 THEN { << >> }
  ELSE LET T == RowsBelow(SubSeq(S, 1, Len(S) - 1)) IN { Append(t, x) : t \in T, x \in S[Len(S)]..S[Len(S) - 1] }
RECURSIVE Patterns(_)
Patterns(S) == IF Len(S) = 1 THEN { << S >> }
               ELSE UNION { { << S >> \o M : M \in Patterns(R) } : R \in RowsBelow(S) }

Interleaves(M) == \A i \in 1..(Len(M) - 1) : \A j \in 1..(Len(M) - i) : M[i][j] >= M[i + 1][j] /\ M[i + 1][j] >= M[i][j + 1]
NonNegative(M) == \A i \in 1..Len(M) : \A j \in 1..Len(M[i]) : M[i][j] >= 0

RowSum(r) == FoldLeft(LAMBDA s, x : s + x, 0, r)
PWeight(M) == [i \in 1..Len(M) |-> RowSum(M[i]) - (IF i = Len(M) THEN 0 ELSE RowSum(M[i + 1]))]
TwiceZ(M) == LET w == PWeight(M) IN [i \in 1..(Len(M) - 1) |-> w[i + 1] - w[i]]
Bump(M, l, k, x) == [M EXCEPT ![l][k] = @ + x]

(* - numerator and denominator of the squared coefficient <M - e| J- |M>, e at row l (2..N) and column k *)
Num2(M, l, k) ==
  LET n == Len(M)
      up == FoldLeft(LAMBDA s, q : s * (M[l - 1][q] - M[l][k] + k - q + 1), 1, Idx(n - l + 2))
      dn == IF l = n THEN 1 ELSE FoldLeft(LAMBDA s, q : s * (M[l + 1][q] - M[l][k] + k - q), 1, Idx(n - l))
  IN -(up * dn)
Den2(M, l, k) ==
  LET n == Len(M) IN
  FoldLeft(LAMBDA s, q : IF q = k THEN s ELSE s * (M[l][q] - M[l][k] + k - q + 1) * (M[l][q] - M[l][k] + k - q), 1, Idx(n - l + 1))
=============================================================================
