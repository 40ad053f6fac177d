------------------------------ MODULE Algebras -------------------------------
(* Structure constants and validity of generators (C23).                      *)
EXTENDS Reps, Modular, Clauses

PrimesUsed == << P1, P2 >>
(* X: sequence of d x d matrices of << re, im >>; everything modulo p *)
MX(X, d, p) == TLCEval([k \in 1..Len(X) |-> TLCEval([i \in 1..d |-> TLCEval([j \in 1..d |-> << X[k][i][j][1] % p, X[k][i][j][2] % p >>])])])
Comm(a, b, d, p) ==     \* a b - b a
  TLCEval([i \in 1..d |-> TLCEval([j \in 1..d |->
    FoldLeft(LAMBDA s, k :
      LET ar == a[i][k][1] ai == a[i][k][2] br == b[k][j][1] bi == b[k][j][2]
          cr == b[i][k][1] ci == b[i][k][2] dr == a[k][j][1] di == a[k][j][2]
          re == ((ar * br) % p) - ((ai * bi) % p) - ((cr * dr) % p) + ((ci * di) % p)
          im == ((ar * bi) % p) + ((ai * br) % p) - ((cr * di) % p) - ((ci * dr) % p)
      IN << (s[1] + re) % p, (s[2] + im) % p >>, << 0, 0 >>, Idx(d))])])
IsZeroMod(M, d) == \A i, j \in 1..d : M[i][j] = << 0, 0 >>
RealVec(M, d) == TLCEval([q \in 1..(2 * d * d) |-> LET w == (q - 1) \div 2 IN M[(w \div d) + 1][(w % d) + 1][((q - 1) % 2) + 1]])

ClosesMod(e, p) ==
  LET n == Len(e.X)  d == e.d
      X == MX(e.X, d, p)
      vs == [k \in 1..n |-> RealVec(X[k], d)]
      r0 == Elim(vs, 2 * d * d, p)
  IN \A i \in 1..n : \A j \in (i + 1)..n :
       LET c == Comm(X[i], X[j], d, p) IN IsZeroMod(c, d) \/ Elim(Append(vs, RealVec(c, d)), 2 * d * d, p) = r0
Closes(e) == ClosesMod(e, P1) /\ ClosesMod(e, P2)
AbelianMod(e, p) == LET X == MX(e.X, e.d, p) IN \A i, j \in 1..Len(e.X) : IsZeroMod(Comm(X[i], X[j], e.d, p), e.d)
Abelian(e) == AbelianMod(e, P1) /\ AbelianMod(e, P2)

(* [X_i, X_j] = sum_k A_ijk X_k with A in units of 1/unit, for all i and j; with X in units of 1/unit, too *)
HoldsMod(e, p) ==
  LET n == Len(e.X)  d == e.d  X == MX(e.X, d, p)
  IN \A i, j \in 1..n :
       LET c == Comm(X[i], X[j], d, p) IN
       \A a, b \in 1..d : \A q \in 1..2 :
         FoldLeft(LAMBDA s, k : (s + ((e.A[i][j][k] % p) * X[k][a][b][q])) % p, 0, Idx(n)) = c[a][b][q]
Holds(e) == HoldsMod(e, P1) /\ HoldsMod(e, P2)

(* small real integers: both sides exactly, and the tolerances 2*atol, 2*rtol *)
Exact(e, i, j, a, b) ==
  LET n == Len(e.X)  d == e.d IN
  << FoldLeft(LAMBDA s, k : s + e.X[i][a][k][1] * e.X[j][k][b][1] - e.X[j][a][k][1] * e.X[i][k][b][1], 0, Idx(d)),
     FoldLeft(LAMBDA s, k : s + e.A[i][j][k] * e.X[k][a][b][1], 0, Idx(n)) >>
HoldsWithin(e) ==
  LET n == Len(e.X)  d == e.d IN
  \A i, j \in 1..n : \A a, b \in 1..d : LET x == Exact(e, i, j, a, b) IN 2 * AbsI(x[1] - x[2]) <= e.atol2 + e.rtol2 * AbsI(x[2])

(* the generators in fixed point, to compare with the inferred constants *)
FxMat(M, d, unit) ==
  [n |-> d, m |-> d, ok |-> TRUE,
   r |-> TLCEval([i \in 1..d |-> SelectSeq(TLCEval([j \in 1..d |-> << j, 512 * (M[i][j][1] \div unit), 0, 512 * (M[i][j][2] \div unit), 0 >>]),
                                          LAMBDA x : x[2] # 0 \/ x[4] # 0)])]
Fits(e, A) ==
  LET n == Len(e.X) IN
  /\ A.ok /\ A.n = n /\ SmallAlg(A)
  /\ BracketOk([k \in 1..n |-> FxMat(e.X[k], e.d, e.unit)], A, e.d)
  /\ AntiSymmetricAlg(A)
RealAlg(A) == \A k \in 1..Len(A.e) : SmallI(ImU(<< A.e[k][4], A.e[k][5], A.e[k][6], A.e[k][7] >>), Tol)

Infer(e, none, A) ==
  IF e.zeroed THEN Must(none = ~Abelian(e), "rounded-away")
  ELSE IF Closes(e) THEN (IF none THEN {"closing-refused"} ELSE IF e.unit # 1 THEN {} ELSE Must(Fits(e, A) /\ RealAlg(A), "wrong-constants"))
  ELSE Must(none, "not-closing-accepted")

(* the relations for i >= j: the combinations sum_k A_ijk X_k of i = j vanish and those of (j, i) are opposite *)
MirrorOk(r) ==
  LET a == AlgFn(r.A)  D == TLCEval([k \in 1..r.n |-> Dense(r.X[k])]) IN
  \A i \in 1..r.n : \A j \in 1..i : \A u, v \in 1..r.d :
    Small(FoldLeft(LAMBDA s, p : Mac(s, p[2], D[p[1]][u][v]), Acc0, a[<< i, j >>] \o a[<< j, i >>]))
RepOk(r) == ShapesOk(r) /\ BoundedRep(r) /\ BracketOk(r.X, r.A, r.d) /\ MirrorOk(r)


Clauses(e) ==
  CASE e.op = "infer" -> Infer(e, e.none, e.a) \cup Must(e.untouched, "argument-changed")
    [] e.op = "from" ->
         IF e.none THEN Infer(e, TRUE, e.a)
         ELSE Infer(e, FALSE, e.rep.A)
              \cup Must(ShapesOk(e.rep) /\ e.rep.d = e.d /\ e.rep.n = Len(e.X) /\ e.rep.h = Len(e.H)
                        /\ (e.unit # 1 \/ \A k \in 1..Len(e.X) : NearM(e.rep.X[k], FxMat(e.X[k], e.d, 1), 0))
                        /\ \A k \in 1..Len(e.H) : NearM(e.rep.H[k], FxMat(e.H[k], e.d, 1), 0), "generators-kept")
    [] e.op = "check" ->
         LET h == IF e.loose THEN HoldsWithin(e) ELSE Holds(e) IN
         Must(e.val = h, IF h THEN "valid-rejected" ELSE "invalid-accepted")
         \cup Must(e.assertval = h, IF h THEN "valid-asserted" ELSE "invalid-not-asserted")
         \cup Must(e.methodtol = h, "method-tolerances")
         \cup Must(e.method = (IF e.loose THEN e.method ELSE h), "method")
    [] e.op = "triplet" ->
         LET rs == e.reps
             same == \A q \in 2..3 : rs[q].n = rs[1].n /\ NearAlg(rs[1].A, rs[q].A, Tol)
             h == same /\ \A q \in 1..3 : RepOk(rs[q])
         IN Must(e.val = h, IF h THEN "triplet-rejected" ELSE "triplet-accepted")
    [] OTHER -> {}
=============================================================================
