------------------------------- MODULE RepOps -------------------------------
(* What each operation on representations has to return: predicates between   *)
(* the operands and the result, on exact or fixed point data.                 *)
EXTENDS Reps, Groups, Session

(* comparison of logged representations with computed matrices *)
Fit(r, d, n, h) == ShapesOk(r) /\ r.d = d /\ r.n = n /\ r.h = h
SameRep(r, q, tol) ==
  /\ r.d = q.d /\ r.n = q.n /\ r.h = q.h /\ NearAlg(r.A, q.A, tol)
  /\ \A a \in 1..r.n : NearM(r.X[a], q.X[a], tol)
  /\ \A a \in 1..r.h : NearM(r.H[a], q.H[a], tol)

XOk(r, q, F(_, _)) == \A a \in 1..r.n : F(r.X[a], q.X[a])
HOk(r, q, F(_, _)) == \A a \in 1..r.h : F(r.H[a], q.H[a])

(* entries of 1 (x) .. M .. (x) 1 checked row by row, sparse *)
RTol == 2 * Tol
KronSumM(P, n1, Q, n2, R) ==   \* R = P (x) 1 + 1 (x) Q
  LET p == Dense(P)  q == Dense(Q) IN
  /\ R.ok /\ R.n = n1 * n2 /\ R.m = n1 * n2
  /\ \A i \in 1..(n1 * n2) :
       LET i1 == ((i - 1) \div n2) + 1  i2 == ((i - 1) % n2) + 1
           row == DenseRow(R.r[i], R.m)
       IN \A j \in 1..(n1 * n2) :
            LET j1 == ((j - 1) \div n2) + 1  j2 == ((j - 1) % n2) + 1
                a == IF i2 = j2 THEN p[i1][j1] ELSE Z4
                b == IF i1 = j1 THEN q[i2][j2] ELSE Z4
                x == row[j]
            IN IF a = Z4 /\ b = Z4 THEN NearN(x, Z4, RTol)
               ELSE /\ AbsI(x[1]) <= 70000 /\ AbsI(x[3]) <= 70000
                    /\ SmallI(ReU(x) - ReU(a) - ReU(b), RTol) /\ SmallI(ImU(x) - ImU(a) - ImU(b), RTol)
Guard(x) == AbsI(x[1]) <= 70000 /\ AbsI(x[3]) <= 70000
KronM(P, n1, Q, n2, R) ==      \* R = P (x) Q
  LET p == Dense(P)  q == Dense(Q) IN
  /\ R.ok /\ R.n = n1 * n2 /\ R.m = n1 * n2
  /\ \A i \in 1..(n1 * n2) :
       LET i1 == ((i - 1) \div n2) + 1  i2 == ((i - 1) % n2) + 1
           row == DenseRow(R.r[i], R.m)
       IN \A j \in 1..(n1 * n2) :
            LET j1 == ((j - 1) \div n2) + 1  j2 == ((j - 1) % n2) + 1
                s == Mac(Acc0, p[i1][j1], q[i2][j2])
                x == row[j]
            IN Guard(x) /\ SmallI(UnitsRe(s) - ReU(x), 4 * Tol) /\ SmallI(UnitsIm(s) - ImU(x), 4 * Tol)
NearDL(D, M, n, m, tol) ==   \* dense D is the logged M
  /\ M.ok /\ M.n = n /\ M.m = m
  /\ \A i \in 1..n : LET row == DenseRow(M.r[i], m) IN
       \A j \in 1..m : Guard(row[j]) /\ NearN(D[i][j], row[j], tol)
TpOk(r, a, b) ==
  /\ NearAlg(r.A, a.A, Tol)
  /\ \A k \in 1..r.n : KronSumM(a.X[k], a.d, b.X[k], b.d, r.X[k])
  /\ \A k \in 1..r.h : KronM(a.H[k], a.d, b.H[k], b.d, r.H[k])

(* operands so small that a conjugate by a matrix of condition <= 3 is bounded for sure *)
ColMax(M) == LET c == FoldLeft(LAMBDA acc, row : FoldLeft(LAMBDA a, e : [a EXCEPT ![e[1]] = @ + AbsI(e[2]) + AbsI(e[4])], acc, row),
                               TLCEval([j \in 1..M.m |-> 0]), M.r)
             IN FoldLeft(LAMBDA s, j : MaxI(s, c[j]), 0, Idx(M.m))
RowMax(M) == FoldLeft(LAMBDA s, row : MaxI(s, RowL1(row)), 0, M.r)
TameM(M, d) == ((RowMax(M) \div 64) + 1) * ((ColMax(M) \div 64) + 1) * d <= 25600
TameRep(r, d) == (\A a \in 1..r.n : TameM(r.X[a], d)) /\ (\A a \in 1..r.h : TameM(r.H[a], d))
EntMax(M) == FoldLeft(LAMBDA s, row : FoldLeft(LAMBDA t, e : MaxI(t, MaxI(AbsI(e[2]), AbsI(e[4])) + 1), s, row), 0, M.r)
(* x^n <= 30 for x in units of 1/512 *)
RECURSIVE PowFits(_, _, _)
PowFits(x, acc, n) == acc <= 15360 /\ (n = 0 \/ PowFits(x, (acc * x) \div 512, n - 1))

(* n-fold Kronecker sum / product of a dense matrix *)
RECURSIVE PowX(_, _, _)
PowX(D, d, n) == IF n = 1 THEN D
  ELSE LET R == PowX(D, d, n - 1)  m == PowI(d, n - 1)
       IN AddD(KronI2(D, d, m), KronI1(R, d, m), d * m, d * m)
RECURSIVE PowH(_, _, _)
PowH(D, d, n) == IF n = 1 THEN D ELSE KronD(D, d, d, PowH(D, d, n - 1), PowI(d, n - 1), PowI(d, n - 1))
TpowOk(r, a, n) ==
  IF n = 0 THEN /\ r.d = 1 /\ NearAlg(r.A, a.A, Tol)
                /\ \A k \in 1..r.n : NearDL(ZeroD(1, 1), r.X[k], 1, 1, Tol)
                /\ \A k \in 1..r.h : IsIdentityM(r.H[k], Tol)
  ELSE LET d == PowI(a.d, n) IN
       /\ NearAlg(r.A, a.A, Tol)
       /\ \A k \in 1..r.n : EntMax(a.X[k]) * n > 15000 \/ NearDL(PowX(Dense(a.X[k]), a.d, n), r.X[k], d, d, RTol * n)
       /\ \A k \in 1..r.h : ~PowFits(EntMax(a.H[k]), 512, n) \/ NearDL(PowH(Dense(a.H[k]), a.d, n), r.H[k], d, d, 4 * Tol)

(* block diagonal of a sequence of logged matrices, as a function of (i, j) *)
Offsets(ds) == LET F[k \in 0..Len(ds)] == IF k = 0 THEN 0 ELSE F[k - 1] + ds[k] IN F
BlockRow(Ms, ds, i) ==   \* dense row i of the block diagonal matrix
  LET off == Offsets(ds)  tot == off[Len(ds)]
      k == CHOOSE k \in 1..Len(ds) : off[k - 1] < i /\ i <= off[k]
      row == DenseRow(Ms[k].r[i - off[k - 1]], ds[k])
  IN TLCEval([j \in 1..tot |-> IF j > off[k - 1] /\ j <= off[k] THEN row[j - off[k - 1]] ELSE Z4])
BlockD(Ms, ds) == LET tot == Offsets(ds)[Len(ds)] IN FR(tot, LAMBDA i : BlockRow(Ms, ds, i))
BlocksOk(r, reps) ==    \* generators of r are the blocks of the logged reps
  LET ds == [k \in 1..Len(reps) |-> reps[k].d] IN
  /\ \A a \in 1..r.n : NearDL(BlockD([k \in 1..Len(reps) |-> reps[k].X[a]], ds), r.X[a], r.d, r.d, Tol)
  /\ \A a \in 1..r.h : NearDL(BlockD([k \in 1..Len(reps) |-> reps[k].H[a]], ds), r.H[a], r.d, r.d, Tol)

(* Y' Q = Q Y, logged Y', Q, dense Y *)
CTol == 8 * Tol
ConjugatedM(R, Q, Y, d) ==
  LET q == Dense(Q) IN
  R.ok /\ BoundedM(R) /\ \A i \in 1..d : \A j \in 1..d :
     SmallAcc(FoldLeft(LAMBDA s, e : MsubS(s, e, Y[e[1]][j]), DotS(R.r[i], q, j), Q.r[i]), CTol)
Conjugated(r, Q, X(_), H(_)) ==
  /\ \A a \in 1..r.n : ConjugatedM(r.X[a], Q, X(a), r.d)
  /\ \A a \in 1..r.h : ConjugatedM(r.H[a], Q, H(a), r.d)

(* product of two logged matrices as a logged matrix *)
ProdM(P, Q) == LET D == MulSD(P.r, P.n, Dense(Q), Q.m) IN [n |-> P.n, m |-> Q.m, r |-> SparseD(D, P.n, Q.m), ok |-> TRUE]

(* change of the basis of the algebra by the matrix Q *)
CaX(r, a, Q) ==
  LET D == TLCEval([k \in 1..a.n |-> Dense(a.X[k])]) IN
  \A i \in 1..r.n : BoundedM(r.X[i]) /\
    \A u \in 1..r.d : LET row == DenseRow(r.X[i].r[u], r.d) IN \A v \in 1..r.d :
      LET s == FoldLeft(LAMBDA acc, e : MacS(acc, e, D[e[1]][u][v]), Acc0, Q.r[i])
      IN SmallI(UnitsRe(s) - ReU(row[v]), CTol) /\ SmallI(UnitsIm(s) - ImU(row[v]), CTol)
AlgMax(A) == FoldLeft(LAMBDA t, e : MaxI(t, MaxI(AbsI(e[4]), AbsI(e[6])) + 1), 0, A.e)
(* the sums over one index stay below 32 *)
CaFits(a, Q) == ((RowMax(Q) \div 64) + 1) * ((AlgMax(a.A) \div 64) + 1) <= 2048
CaA(r, a, Q) ==
  ~CaFits(a, Q) \/
  LET n == a.n
      al == AlgFn(a.A)
      q == Dense(Q)
      \* U_ib(c) = sum_a Q_ia A_abc ; V_ij(c) = sum_b Q_jb U_ib(c)
      Row(i, b) == FoldLeft(LAMBDA f, e : FoldLeft(LAMBDA g, p : [g EXCEPT ![p[1]] = MacS(@, e, p[2])], f, al[<< e[1], b >>]),
                            TLCEval([c \in 1..n |-> Acc0]), Q.r[i])
      U == FR(n, LAMBDA i : FR(n, LAMBDA b : LET f == Row(i, b) IN FR(n, LAMBDA c : FromAcc(f[c]))))
      V(i, j, c) == FoldLeft(LAMBDA s, e : MacS(s, e, U[i][e[1]][c]), Acc0, Q.r[j])
      new == AlgFn(r.A)
  IN /\ r.A.ok /\ SmallAlg(r.A)
     /\ \A i, j, c \in 1..n :
          SmallAcc(FoldLeft(LAMBDA s, p : Msub(s, p[2], q[p[1]][c]), V(i, j, c), new[<< i, j >>]), 2 * CTol)

(* generators of a product of two groups: [A, X, H] compared with the factors' *)
GpOk(r, a, b) ==
  LET off == a.n IN
  /\ NearAlg(r.A, [n |-> a.n + b.n, ok |-> a.A.ok /\ b.A.ok,
                   e |-> a.A.e \o [k \in 1..Len(b.A.e) |-> LET e == b.A.e[k] IN << e[1] + off, e[2] + off, e[3] + off, e[4], e[5], e[6], e[7] >>]], Tol)
  /\ \A k \in 1..a.n : NearDL(KronI2(Dense(a.X[k]), a.d, b.d), r.X[k], r.d, r.d, Tol)
  /\ \A k \in 1..b.n : NearDL(KronI1(Dense(b.X[k]), a.d, b.d), r.X[a.n + k], r.d, r.d, Tol)
  /\ \A k \in 1..a.h : NearDL(KronI2(Dense(a.H[k]), a.d, b.d), r.H[k], r.d, r.d, Tol)
  /\ \A k \in 1..b.h : NearDL(KronI1(Dense(b.H[k]), a.d, b.d), r.H[a.h + k], r.d, r.d, Tol)
LogD(D, n, m) == [n |-> n, m |-> m, r |-> SparseD(D, n, m), ok |-> TRUE]
GpRep(a, b) ==    \* the product as a logged representation (for three factors)
  [d |-> a.d * b.d, n |-> a.n + b.n, h |-> a.h + b.h,
   A |-> [n |-> a.n + b.n, ok |-> a.A.ok /\ b.A.ok,
          e |-> a.A.e \o [k \in 1..Len(b.A.e) |-> LET e == b.A.e[k] IN << e[1] + a.n, e[2] + a.n, e[3] + a.n, e[4], e[5], e[6], e[7] >>]],
   X |-> [k \in 1..a.n + b.n |-> LogD(IF k <= a.n THEN KronI2(Dense(a.X[k]), a.d, b.d) ELSE KronI1(Dense(b.X[k - a.n]), a.d, b.d), a.d * b.d, a.d * b.d)],
   H |-> [k \in 1..a.h + b.h |-> LogD(IF k <= a.h THEN KronI2(Dense(a.H[k]), a.d, b.d) ELSE KronI1(Dense(b.H[k - a.h]), a.d, b.d), a.d * b.d, a.d * b.d)]]

(* complex conjugate entry by entry *)
ConjM(P, Q, tol) ==
  /\ P.ok /\ Q.ok /\ P.n = Q.n /\ P.m = Q.m
  /\ NearM(P, [Q EXCEPT !.r = [i \in 1..Q.n |-> [k \in 1..Len(Q.r[i]) |-> LET e == Q.r[i][k] IN << e[1], e[2], e[3], -e[4], -e[5] >>]]], tol)

(* the stored listing and change of basis reproduce the generators: X Q = Q (+) parts *)
PartsOk(r, p) ==
  LET es == SelectSeq(p.seq, LAMBDA x : x[2] > 0)
      RECURSIVE Exp(_)
      Exp(k) == IF k = 0 THEN << >> ELSE Exp(k - 1) \o [q \in 1..es[k][2] |-> es[k][1]]
      which == Exp(Len(es))
      ds == [k \in 1..Len(which) |-> p.reps[which[k]].d]
  IN /\ \A k \in 1..Len(p.reps) : ShapesOk(p.reps[k]) /\ BoundedRep(p.reps[k]) /\ p.reps[k].n = r.n /\ p.reps[k].h = r.h
     /\ Offsets(ds)[Len(ds)] = r.d
     /\ p.Q.ok /\ p.Q.n = r.d /\ p.Q.m = r.d /\ BoundedM(p.Q)
     /\ Conjugated(r, p.Q, LAMBDA a : BlockD([k \in 1..Len(which) |-> p.reps[which[k]].X[a]], ds),
                           LAMBDA a : BlockD([k \in 1..Len(which) |-> p.reps[which[k]].H[a]], ds))

ListingBag(li) == SumBag([k \in 1..Len(li) |-> << li[k][1], li[k][2] >>])
Tabulated(li) == \A k \in 1..Len(li) : li[k][1][1] # "?" /\ Valid(li[k][1])
=============================================================================
