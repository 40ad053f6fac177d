-------------------------------- MODULE Finite --------------------------------
(* Character tables of small finite groups, and products of a Lie group with  *)
(* one of them.  A character value is a pair <<a, b>> for a + b u, where u is *)
(* a primitive cube root of unity (C3, A4) or the imaginary unit (C4); the    *)
(* characters of D4, Q8 and S3 are integers.                                  *)
EXTENDS Integers, Sequences, FiniteSets

Cube(h) == h \in {"C3", "A4"}
PMul(h, x, y) == LET bb == x[2] * y[2] IN
  IF Cube(h) THEN << x[1] * y[1] - bb, x[1] * y[2] + x[2] * y[1] - bb >> ELSE << x[1] * y[1] - bb, x[1] * y[2] + x[2] * y[1] >>
PConj(h, x) == IF Cube(h) THEN << x[1] - x[2], -x[2] >> ELSE << x[1], -x[2] >>
Num(n) == << n, 0 >>
W1 == << 0, 1 >>
W2 == << -1, -1 >>

\* sizes of the conjugacy classes, the class of the square of an element, and the table (irreps by rows)
Classes(h) == CASE h = "C3" -> << 1, 1, 1 >> [] h = "C4" -> << 1, 1, 1, 1 >> [] h = "A4" -> << 1, 3, 4, 4 >>
                [] h \in {"Q8", "D4"} -> << 1, 1, 2, 2, 2 >>
Squares(h) == CASE h = "C3" -> << 1, 3, 2 >> [] h = "C4" -> << 1, 3, 1, 3 >> [] h = "A4" -> << 1, 1, 4, 3 >>
                [] h = "Q8" -> << 1, 1, 2, 2, 2 >> [] h = "D4" -> << 1, 1, 2, 1, 1 >>
Table(h) ==
  CASE h = "C3" -> << << Num(1), Num(1), Num(1) >>, << Num(1), W1, W2 >>, << Num(1), W2, W1 >> >>
    [] h = "C4" -> << << Num(1), Num(1), Num(1), Num(1) >>, << Num(1), << 0, 1 >>, Num(-1), << 0, -1 >> >>, << Num(1), Num(-1), Num(1), Num(-1) >>,
                      << Num(1), << 0, -1 >>, Num(-1), << 0, 1 >> >> >>
    [] h = "A4" -> << << Num(1), Num(1), Num(1), Num(1) >>, << Num(1), Num(1), W1, W2 >>, << Num(1), Num(1), W2, W1 >>, << Num(3), Num(-1), Num(0), Num(0) >> >>
    [] h \in {"Q8", "D4"} -> << << Num(1), Num(1), Num(1), Num(1), Num(1) >>, << Num(1), Num(1), Num(1), Num(-1), Num(-1) >>, << Num(1), Num(1), Num(-1), Num(1), Num(-1) >>,
                      << Num(1), Num(1), Num(-1), Num(-1), Num(1) >>, << Num(2), Num(-2), Num(0), Num(0), Num(0) >> >>
Groups5 == {"C3", "C4", "A4", "Q8", "D4"}
PSum(f) == LET G[k \in 0..Len(f)] == IF k = 0 THEN Num(0) ELSE << G[k - 1][1] + f[k][1], G[k - 1][2] + f[k][2] >> IN G[Len(f)]
Scale(n, x) == << n * x[1], n * x[2] >>
FinOrder(h) == PSum([c \in 1..Len(Classes(h)) |-> Num(Classes(h)[c])])[1]
FinDim(h, i) == Table(h)[i][1][1]
FinN(h) == Len(Table(h))
Average(h, F(_)) == LET s == PSum([c \in 1..Len(Classes(h)) |-> Scale(Classes(h)[c], F(c))]) IN << s[1] \div FinOrder(h), s[2] >>
\* multiplicity of the irrep k in the product of the irreps i and j
FinMult(h, i, j, k) == LET t == Table(h) IN Average(h, LAMBDA c : PMul(h, PMul(h, t[i][c], t[j][c]), PConj(h, t[k][c])))[1]
FinConj(h, i) == LET t == Table(h) IN CHOOSE j \in 1..FinN(h) : \A c \in 1..Len(Classes(h)) : t[j][c] = PConj(h, t[i][c])
\* Frobenius-Schur indicator
FinReality(h, i) == LET t == Table(h) IN Average(h, LAMBDA c : t[i][Squares(h)[c]])[1]

(* the laws of characters *)
FinLaws ==
  \A h \in Groups5 :
    LET t == Table(h)  n == FinN(h)  m == Len(Classes(h)) IN
    /\ n = m
    /\ PSum([i \in 1..n |-> Num(FinDim(h, i) * FinDim(h, i))]) = Num(FinOrder(h))
    /\ \A i, j \in 1..n : Average(h, LAMBDA c : PMul(h, t[i][c], PConj(h, t[j][c]))) = Num(IF i = j THEN 1 ELSE 0)
    /\ \A i \in 1..n : /\ FinReality(h, i) \in {-1, 0, 1}
                       /\ (FinReality(h, i) # 0) = (FinConj(h, i) = i)
                       /\ FinConj(h, FinConj(h, i)) = i
                       /\ FinReality(h, i) = FinMult(h, i, i, 1) * FinReality(h, i)
    /\ \A i, j \in 1..n : PSum([k \in 1..n |-> Num(FinMult(h, i, j, k) * FinDim(h, k))]) = Num(FinDim(h, i) * FinDim(h, j))
    /\ \A i, j, k \in 1..n : FinMult(h, i, j, k) = FinMult(h, j, i, k) /\ FinMult(h, i, j, k) = FinMult(h, k, FinConj(h, j), i)
    \* the indicators count the square roots of 1
    /\ PSum([i \in 1..n |-> Num(FinReality(h, i) * FinDim(h, i))]) = PSum([c \in 1..m |-> Num(IF Squares(h)[c] = 1 THEN Classes(h)[c] ELSE 0)])
=============================================================================
