------------------------------- MODULE LinAlg --------------------------------
(* Subspaces of Gaussian integer matrices (C22).                              *)
EXTENDS Num, Modular, Clauses

-----------------------------------------------------------------------------
(* a Gaussian integer matrix as sparse fixed point rows *)
FxRow(row) == SelectSeq(TLCEval([j \in 1..Len(row) |-> << j, 512 * row[j][1], 0, 512 * row[j][2], 0 >>]), LAMBDA e : e[2] # 0 \/ e[4] # 0)
FxRows(r) == TLCEval([i \in 1..Len(r) |-> FxRow(r[i])])
Shape(M, n, m) == M.ok /\ M.n = n /\ M.m = m
ShapeB(M, n, m) == Shape(M, n, m) /\ BoundedM(M)

LTol == 64
(* M M^dagger = 1 *)
Orthonormal(M) ==
  LET D == DagD(Dense(M), M.n, M.m) IN
  \A i \in 1..M.n : \A j \in 1..M.n :
    LET s == DotS(M.r[i], D, j) IN SmallI(UnitsRe(s) - (IF i = j THEN 1048576 ELSE 0), LTol) /\ SmallI(UnitsIm(s), LTol)
(* the rows r (Gaussian integers) are combinations of the orthonormal rows of M:  r M^dagger M = r *)
InSpan(r, M, m) ==
  LET fx == FxRows(r)
      D == Dense(M)
      C == MulSD(fx, Len(r), DagD(D, M.n, M.m), M.n)
      sp == SparseD(C, Len(r), M.n)
  IN \A i \in 1..Len(r) : \A j \in 1..m :
       LET s == DotS(sp[i], D, j) IN SmallI(UnitsRe(s) - 1048576 * r[i][j][1], 4 * LTol) /\ SmallI(UnitsIm(s) - 1048576 * r[i][j][2], 4 * LTol)
(* rows of the logged M are orthogonal (dag) or annihilated (no dag): r M^T = 0 *)
Annihilated(r, M, dag) ==
  LET fx == FxRows(r)
      D == IF dag THEN DagD(Dense(M), M.n, M.m) ELSE TransD(Dense(M), M.n, M.m)
  IN \A i \in 1..Len(r) : \A j \in 1..M.n : SmallAcc(DotS(fx[i], D, j), 4 * LTol)

NullOk(A, X) ==
  LET k == A.m - Rank(A) IN
  IF ~ShapeB(X, k, A.m) THEN {"null-dimension"}
  ELSE Must(Orthonormal(X), "null-orthonormal") \cup Must(Annihilated(A.r, X, FALSE), "null-annihilated")

(* P1 b1 = C b2 with the logged certificate C *)
Common(P, b1, C, b2) ==
  LET m == b1.m
      L == MulSD(P.r, P.n, Dense([n |-> b1.n, m |-> m, r |-> FxRows(b1.r)]), m)
      R == MulSD(C.r, C.n, Dense([n |-> b2.n, m |-> m, r |-> FxRows(b2.r)]), m)
  IN NearD(L, R, P.n, m, 8 * LTol)

(* the equations x1 S = S x2 on the entries of S, row-major *)
Zero2 == << 0, 0 >>
Sub2(a, b) == << a[1] - b[1], a[2] - b[2] >>
Equations(x1, x2) ==
  LET d1 == x1.n  d2 == x2.n IN
  TLCEval([q \in 1..(d1 * d2) |->
     LET i == ((q - 1) \div d2) + 1  l == ((q - 1) % d2) + 1 IN
     TLCEval([w \in 1..(d1 * d2) |->
       LET k == ((w - 1) \div d2) + 1  j == ((w - 1) % d2) + 1
           a == IF j = l THEN x1.r[i][k] ELSE Zero2
           b == IF k = i THEN x2.r[j][l] ELSE Zero2
       IN Sub2(a, b)])])

-----------------------------------------------------------------------------
Clauses(e) ==
  CASE e.op = "gs" ->
         LET k == Rank(e.a) IN
         IF ~ShapeB(e.q, k, e.a.m) THEN {"orth-dimension"}
         ELSE Must(Orthonormal(e.q), "orth-orthonormal") \cup Must(InSpan(e.a.r, e.q, e.a.m), "orth-row-space")
    [] e.op = "ext" ->
         LET k == Rank(e.a)  m == e.a.m IN
         (IF ~ShapeB(e.q, m, m) THEN {"ext-dimension"}
          ELSE Must(Orthonormal(e.q), "ext-orthonormal")
               \cup Must(InSpan(e.a.r, [e.q EXCEPT !.n = k, !.r = SubSeq(@, 1, k)], m), "ext-row-space"))
         \cup (IF ~ShapeB(e.e, m - k, m) THEN {"ext-added-dimension"}
               ELSE Must(Orthonormal(e.e), "ext-added-orthonormal") \cup Must(Annihilated(e.a.r, e.e, TRUE), "ext-added-complement"))
    [] e.op = "ns" -> NullOk(e.a, e.x)
    [] e.op = "sns" ->
         LET m == e.m
             Dim(k) == m - RankR(Stack(SubSeq(e.as, 1, k)), m)
             stop == SelectSeq(Idx(Len(e.as)), LAMBDA k : Dim(k) <= e.dim)
         IN IF Len(stop) = 0 THEN Must(e.err = "ValueError", "seq-not-refused")
            ELSE IF e.err # "" THEN {"seq-refused"}
            ELSE NullOk([n |-> 0, m |-> m, r |-> Stack(SubSeq(e.as, 1, stop[1]))], e.x)
    [] e.op = "bi" ->
         LET k == e.b1.n + e.b2.n - RankR(e.b1.r \o e.b2.r, e.b1.m) IN
         IF Rank(e.b1) # e.b1.n \/ Rank(e.b2) # e.b2.n THEN {}     \* not bases
         ELSE IF ~ShapeB(e.p1, k, e.b1.n) \/ ~ShapeB(e.p2, k, e.b2.n) THEN {"meet-dimension"}
         ELSE Must(Orthonormal(e.p1) /\ Orthonormal(e.p2), "meet-independent")
              \cup Must(ShapeB(e.c1, k, e.b2.n) /\ ShapeB(e.c2, k, e.b1.n) /\ Common(e.p1, e.b1, e.c1, e.b2) /\ Common(e.p2, e.b2, e.c2, e.b1), "meet-common")
    [] e.op = "icb" ->
         LET eqs == FlattenSeq([k \in 1..Len(e.x1) |-> Equations(e.x1[k], e.x2[k])])
             d == e.d1 * e.d2
         IN Must(e.shape = << d - RankR(eqs, d), e.d1, e.d2 >>, "solutions-shape") \cup NullOk([n |-> 0, m |-> d, r |-> eqs], e.s)
    [] OTHER -> {}
=============================================================================
