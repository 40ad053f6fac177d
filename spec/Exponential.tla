----------------------------- MODULE Exponential -----------------------------
(* The exponential by its Taylor series and powers of discrete generators.    *)
EXTENDS Reps

ETol == 4 * Tol
Scal(u) == FromUnits(u * 1024, 0)                 \* u / 2^10
(* sum_a t_a X_a *)
Comb(t, X, d) ==
  LET D == TLCEval([a \in 1..Len(X) |-> Dense(X[a])]) IN
  FR(d, LAMBDA i : FR(d, LAMBDA j : FromAcc(FoldLeft(LAMBDA s, a : Mac(s, Scal(t[a]), D[a][i][j]), Acc0, Idx(Len(X))))))
DivN(x, n) == FromUnits(RD(ReU(x), n), RD(ImU(x), n))
Taylor(M, d) ==
  LET St == FoldLeft(LAMBDA st, n : LET T == MulDD(st.t, d, d, M, d)
                                        U == FR(d, LAMBDA i : FR(d, LAMBDA j : DivN(T[i][j], n)))
                                    IN [t |-> U, s |-> AddD(st.s, U, d, d)],
                     [t |-> IdD(d), s |-> IdD(d)], Idx(9))
  IN St.s
EntryMax(M, d) == FoldLeft(LAMBDA s, i : MaxI(s, FoldLeft(LAMBDA r, j : r + AbsI(ReU(M[i][j])) + AbsI(ImU(M[i][j])), 0, Idx(d))), 0, Idx(d))

Sq(M, d) == M.ok /\ M.n = d /\ M.m = d
Near2(D, M, d, tol) == Sq(M, d) /\ BoundedM(M) /\ LET E == Dense(M) IN \A i, j \in 1..d : NearN(D[i][j], E[i][j], tol)
(* P Q = R, logged *)
ProductIs(P, Q, R, d, tol) ==
  /\ Sq(P, d) /\ Sq(Q, d) /\ Sq(R, d)
  /\ (BoundedM(P) /\ BoundedM(Q)) =>
       /\ BoundedM(R) /\ IsProduct(P.r, d, Dense(Q), d, Dense(R), tol)

RECURSIVE PowL(_, _, _)
PowL(D, d, k) == IF k = 0 THEN IdD(d) ELSE LET q == TLCEval(PowL(D, d, k - 1)) IN TLCEval(MulDD(q, d, d, D, d))
(* the inverse of a discrete generator is logged and verified *)
DiscreteOf(H, iH, k, d) ==
  FoldLeft(LAMBDA s, a : MulDD(s, d, d, PowL(Dense(IF k[a] >= 0 THEN H[a] ELSE iH[a]), d, AbsI(k[a])), d), IdD(d), Idx(Len(H)))
InversesOk(e) == \A a \in 1..Len(e.rep.H) : LET D == MulSD(e.rep.H[a].r, e.rep.d, Dense(e.iH[a]), e.rep.d) IN IsIdD(D, e.rep.d, Tol)

(* large and negative powers of several discrete generators, in exact arithmetic: the generators are monomial *)
(* matrices of fourth roots of unity, so that their inverse is the conjugate transpose                         *)
GMul(A, B, d) == TLCEval([i \in 1..d |-> TLCEval([j \in 1..d |-> FoldLeft(LAMBDA s, q : << s[1] + A[i][q][1] * B[q][j][1] - A[i][q][2] * B[q][j][2],
                                                                              s[2] + A[i][q][1] * B[q][j][2] + A[i][q][2] * B[q][j][1] >>, << 0, 0 >>, Idx(d))])])
GOne(d) == TLCEval([i \in 1..d |-> TLCEval([j \in 1..d |-> << IF i = j THEN 1 ELSE 0, 0 >>])])
GAdj(A, d) == TLCEval([i \in 1..d |-> TLCEval([j \in 1..d |-> << A[j][i][1], -A[j][i][2] >>])])
(* the low bits of k give the factors: values, not expressions, are carried from bit to bit *)
GPow(A, k, d) ==
  FoldLeft(LAMBDA st, b : IF st.k = 0 THEN st
                          ELSE [k |-> st.k \div 2, a |-> GMul(st.a, st.a, d), r |-> IF st.k % 2 = 1 THEN GMul(st.a, st.r, d) ELSE st.r],
           [k |-> k, a |-> A, r |-> GOne(d)], Idx(31)).r
=============================================================================
