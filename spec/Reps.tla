--------------------------------- MODULE Reps ---------------------------------
(* Representations as data: structure constants, continuous generators X,     *)
(* discrete generators H, and the relations between them.                     *)
(*                                                                            *)
(* Logged representation: [d, A |-> [n, e, ok], n, h, xs, hs, X, H] with X, H *)
(* sequences of logged (sparse) matrices.                                     *)
EXTENDS Num

(* generators have the documented shapes *)
ShapesOk(r) ==
  /\ r.n >= 0 /\ r.h >= 0
  /\ r.A.n = r.n
  /\ r.xs = << r.n, r.d, r.d >>
  /\ r.hs = << r.h, r.d, r.d >>
  /\ \A a \in 1..r.n : r.X[a].n = r.d /\ r.X[a].m = r.d
  /\ \A a \in 1..r.h : r.H[a].n = r.d /\ r.H[a].m = r.d

FiniteRep(r) == r.A.ok /\ (\A a \in 1..r.n : r.X[a].ok) /\ (\A a \in 1..r.h : r.H[a].ok)

SmallAlg(A) == \A k \in 1..Len(A.e) : AbsI(A.e[k][4]) <= 16384 /\ AbsI(A.e[k][6]) <= 16384
BoundedRep(r) == FiniteRep(r) /\ SmallAlg(r.A)
                 /\ (\A a \in 1..r.n : BoundedM(r.X[a])) /\ (\A a \in 1..r.h : BoundedM(r.H[a]))

(* structure constants as a function (i,j) |-> sequence of <<k, number>> *)
AlgFn(A) ==
  LET z == TLCEval([p \in (1..A.n) \X (1..A.n) |-> << >>])
  IN TLCEval(FoldLeft(LAMBDA f, e : [f EXCEPT ![<< e[1], e[2] >>] = Append(@, << e[3], << e[4], e[5], e[6], e[7] >> >>)], z, A.e))

NumAt(seq, k) ==   \* coefficient of k in a sequence of <<k, number>>
  LET hits == SelectSeq(seq, LAMBDA x : x[1] = k) IN IF Len(hits) = 0 THEN Z4 ELSE hits[1][2]

NearAlg(A, B, tol) ==
  /\ A.ok /\ B.ok /\ A.n = B.n /\ SmallAlg(A) /\ SmallAlg(B)
  /\ IF A.e = B.e THEN TRUE
     ELSE LET a == AlgFn(A)  b == AlgFn(B)
          IN \A i, j, k \in 1..A.n : NearN(NumAt(a[<< i, j >>], k), NumAt(b[<< i, j >>], k), tol)

AntiSymmetricAlg(A) ==
  LET a == AlgFn(A) IN
  \A i, j \in 1..A.n : \A p \in {a[<< i, j >>][q] : q \in 1..Len(a[<< i, j >>])} :
     NearN(NumAt(a[<< j, i >>], p[1]), NegN(p[2]), Tol)

(* sum_e A_ije A_ekl + cyclic = 0, accumulated exactly *)
JacobiAlg(A) ==
  LET a == AlgFn(A)
      Term(s0, i, j, k, m) == FoldLeft(LAMBDA s, p : Mac(s, p[2], NumAt(a[<< p[1], k >>], m)), s0, a[<< i, j >>])
  IN \A i, j, k \in 1..A.n : \A m \in 1..A.n :
       (i < j /\ j < k) => Small(Term(Term(Term(Acc0, i, j, k, m), j, k, i, m), k, i, j, m))

ColSet(row) == { row[k][1] : k \in 1..Len(row) }
ColSets(M) == TLCEval([i \in 1..M.n |-> ColSet(M.r[i])])
Supp(row, cols) == UNION { cols[row[k][1]] : k \in 1..Len(row) }

(* [X_i, X_j] = sum_k A_ijk X_k for all i < j *)
BracketOk(X, A, d) ==
  LET n == A.n
      D == TLCEval([i \in 1..n |-> Dense(X[i])])
      C == TLCEval([i \in 1..n |-> ColSets(X[i])])
      a == AlgFn(A)
      Ok(i, j) ==
        \A r \in 1..d :
          LET rel == a[<< i, j >>]
              J == Supp(X[i].r[r], C[j]) \cup Supp(X[j].r[r], C[i])
                   \cup UNION { C[rel[q][1]][r] : q \in 1..Len(rel) }
          IN \A c \in J :
               LET s1 == DotS(X[i].r[r], D[j], c)
                   s2 == DotSSub(s1, X[j].r[r], D[i], c)
                   s3 == FoldLeft(LAMBDA s, p : Msub(s, p[2], D[p[1]][r][c]), s2, rel)
               IN Small(s3)
  IN \A i, j \in 1..n : i < j => Ok(i, j)

(* P Q = Q P *)
CommuteM(P, Q, d) ==
  LET DP == Dense(P) DQ == Dense(Q) CP == ColSets(P) CQ == ColSets(Q)
  IN \A r \in 1..d : \A c \in Supp(P.r[r], CQ) \cup Supp(Q.r[r], CP) :
       Small(DotSSub(DotS(P.r[r], DQ, c), Q.r[r], DP, c))

InvolutionM(P, d) ==
  LET D == Dense(P) IN \A r \in 1..d : \A c \in 1..d :
     LET s == DotS(P.r[r], D, c) IN SmallI(UnitsRe(s) - (IF r = c THEN 1048576 ELSE 0), Tol) /\ SmallI(UnitsIm(s), Tol)

AntiHermitianM(P) ==
  LET D == Dense(P) IN \A r \in 1..P.n : \A k \in 1..Len(P.r[r]) :
     LET e == P.r[r][k] IN NearN(<< e[2], e[3], e[4], e[5] >>, NegN(ConjN(D[e[1]][r])), Tol)

UnitaryM(P) ==   \* P P^dagger = 1
  LET D == DagD(Dense(P), P.n, P.m) IN \A r \in 1..P.n : \A c \in 1..P.n :
     LET s == DotS(P.r[r], D, c) IN SmallI(UnitsRe(s) - (IF r = c THEN 1048576 ELSE 0), Tol) /\ SmallI(UnitsIm(s), Tol)

RealM(P) == \A r \in 1..P.n : \A k \in 1..Len(P.r[r]) : SmallI(P.r[r][k][4] * 2048 + P.r[r][k][5], Tol)

NearM(P, Q, tol) ==   \* logged matrices
  /\ P.ok /\ Q.ok /\ P.n = Q.n /\ P.m = Q.m
  /\ \A i \in 1..P.n :
       IF P.r[i] = Q.r[i] THEN TRUE
       ELSE LET a == DenseRow(P.r[i], P.m)  b == DenseRow(Q.r[i], Q.m)
            IN \A j \in ColSet(P.r[i]) \cup ColSet(Q.r[i]) :
                 /\ AbsI(a[j][1] - b[j][1]) < 4 /\ AbsI(a[j][3] - b[j][3]) < 4   \* guard, |x| <= 4096
                 /\ SmallI((a[j][1] - b[j][1]) * 2048 + a[j][2] - b[j][2], tol)
                 /\ SmallI((a[j][3] - b[j][3]) * 2048 + a[j][4] - b[j][4], tol)

(* the dense matrix D is the logged matrix M *)
NearDM(D, M, n, m, tol) ==
  /\ M.ok /\ M.n = n /\ M.m = m
  /\ LET E == Dense(M) IN \A i \in 1..n : \A j \in 1..m :
       /\ AbsI(E[i][j][1]) <= 20000 /\ AbsI(E[i][j][3]) <= 20000
       /\ NearN(D[i][j], E[i][j], tol)

(* an exact identity / zero *)
IsIdentityM(M, tol) ==
  /\ M.ok /\ M.n = M.m
  /\ \A i \in 1..M.n : LET a == DenseRow(M.r[i], M.m) IN
       \A j \in 1..M.m : /\ AbsI(a[j][1]) <= 1024 /\ AbsI(a[j][3]) <= 1024
                         /\ NearN(a[j], IF i = j THEN One4 ELSE Z4, tol)
IsZeroM(M) == M.ok /\ \A i \in 1..M.n : Len(M.r[i]) = 0

ScaleAcc(w, s) == << w * s[1], w * s[2], w * s[3], w * s[4], w * s[5], w * s[6] >>
AddAcc(s, t) == << s[1]+t[1], s[2]+t[2], s[3]+t[3], s[4]+t[4], s[5]+t[5], s[6]+t[6] >>
=============================================================================
