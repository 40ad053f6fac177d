-------------------------------- MODULE RtpTrace --------------------------------
(* C17, C18: bases of tensor products with a permutation symmetry.            *)
(*                                                                            *)
(* An event carries the signed permutations of the formula, the content and   *)
(* the generators of the representation on every index, the basis tensors     *)
(* W[a][i1..in] and the representation returned with them.  The signed group  *)
(* the formula generates and the content of the space of symmetric tensors    *)
(* are computed here: the weight basis of the space consists of the orbits of *)
(* the group on weight tuples whose stabiliser has no sign.                   *)
EXTENDS TraceBase, Formulas

-----------------------------------------------------------------------------
RECURSIVE ProdS(_, _)
ProdS(ds, k) == IF k > Len(ds) THEN 1 ELSE ds[k] * ProdS(ds, k + 1)
SparseCols(M) == LET D == Dense(M) IN FR(M.m, LAMBDA j : SparseRow([i \in 1..M.n |-> D[i][j]], M.n))

(* flat index J, digit of factor k is digit+1, stride st *)
Digit(J, st, d) == (((J - 1) \div st) % d) + 1

SumEquiv(Xo, Xs, W, ds, o) ==
  LET n == Len(ds)
      st == TLCEval([k \in 1..n |-> ProdS(ds, k + 1)])
      C == TLCEval([k \in 1..n |-> SparseCols(Xs[k])])
      w == Dense(W)
      N == ProdS(ds, 1)
  IN \A a \in 1..o : \A J \in 1..N :
       LET s0 == DotS(Xo.r[a], w, J)
           F[k \in 0..n] == IF k = 0 THEN s0 ELSE
              LET dg == Digit(J, st[k], ds[k]) IN FoldLeft(LAMBDA s, e : MsubS(s, e, w[a][J + (e[1] - dg) * st[k]]), F[k - 1], C[k][dg])
       IN SmallAcc(F[n], CTol)

(* W (1 (x) .. H_k .. (x) 1) *)
ApplyAxis(w, H, st, d, o, N) ==
  LET C == SparseCols(H) IN
  FR(o, LAMBDA a : FR(N, LAMBDA J : LET dg == Digit(J, st, d) IN
     FromAcc(FoldLeft(LAMBDA s, e : MacS(s, e, w[a][J + (e[1] - dg) * st]), Acc0, C[dg]))))
ProdEquiv(Ho, Hs, W, ds, o) ==
  LET n == Len(ds)
      N == ProdS(ds, 1)
      w == Dense(W)
      V[k \in 0..n] == IF k = 0 THEN w ELSE ApplyAxis(V[k - 1], Hs[k], ProdS(ds, k + 1), ds[k], o, N)
      v == V[n]
  IN \A a \in 1..o : \A J \in 1..N :
       LET s == DotS(Ho.r[a], w, J) IN Guard4(v[a][J]) /\ SmallI(UnitsRe(s) - ReU(v[a][J]), CTol) /\ SmallI(UnitsIm(s) - ImU(v[a][J]), CTol)

Equivariant(e) ==
  LET n == Len(e.reps)
      ds == [k \in 1..n |-> e.reps[k].d]
      ro == e.rep
  IN /\ \A k \in 1..n : e.reps[k].n = ro.n /\ e.reps[k].h = ro.h
     /\ \A q \in 1..ro.n : SumEquiv(ro.X[q], [k \in 1..n |-> e.reps[k].X[q]], e.W, ds, ro.d)
     /\ \A q \in 1..ro.h : ProdEquiv(ro.H[q], [k \in 1..n |-> e.reps[k].H[q]], e.W, ds, ro.d)

(* every basis tensor has the symmetry of every generator of the formula: T[x] = s T[x o p] *)
Flat(x, ds) == LET F[k \in 0..Len(ds)] == IF k = 0 THEN 0 ELSE F[k - 1] * ds[k] + x[k] - 1 IN F[Len(ds)] + 1
Symmetric(e) ==
  LET n == Len(e.reps)
      ds == [k \in 1..n |-> e.reps[k].d]
      T == Tuples(ds)
      w == Dense(e.W)
  IN \A k \in 1..Len(e.gens) : LET s == e.gens[k][1]  p == e.gens[k][2] IN
       \A x \in T : LET i == Flat(x, ds)  j == Flat(Move(x, p), ds) IN
         \A a \in 1..e.W.n : NearN(w[a][i], IF s = 1 THEN w[a][j] ELSE NegN(w[a][j]), Tol)

(* a logged right inverse R, scaled by 2^-k: W R is diagonally dominant, so the rows of W are independent *)
RowsIndependent(W, R) ==
  LET n == W.n
      D == Dense(R)
  IN n = 0 \/ ( R.ok /\ R.n = W.m /\ R.m = n /\ BoundedD(TransD(D, R.n, n), n, R.n) /\
       \A a \in 1..n : LET s == FR(n, LAMBDA b : DotS(W.r[a], D, b)) IN
         2 * AbsI(UnitsRe(s[a])) > 3 * FoldLeft(LAMBDA t, b : t + (IF b = a THEN AbsI(UnitsIm(s[b])) ELSE AbsI(UnitsRe(s[b])) + AbsI(UnitsIm(s[b]))), Tol, Idx(n)) )

ListingOk(e) == \A k \in 1..Len(e.listing) : e.listing[k][1][1] # "?" /\ Valid(e.listing[k][1])

Rtp(e) ==
  LET n == Len(e.reps)
      ds == [k \in 1..n |-> e.reps[k].d]
      g == GroupOf(e.contents[1][1][1])
      fit == (\A k \in 1..n : RepFit(e.reps[k])) /\ RepFit(e.rep) /\ e.W.ok /\ BoundedM(e.W)
             /\ e.W.n = e.rep.d /\ e.W.m = ProdS(ds, 1) /\ e.shape = ds \o << e.rep.d >>
      G == SignedGroup(e.gens, n)
  IN IF ~fit THEN {"shape"}
     ELSE IF Prop = "C17" THEN
       Must(Equivariant(e), "equivariance")
       \cup Must(NearAlg(e.rep.A, e.reps[1].A, Tol), "constants")
       \cup Must(e.listok, "list-form")
     ELSE
       Must(Symmetric(e), "symmetry")
       \cup Must(ListingOk(e), "irreps")
       \cup (IF ~ListingOk(e) THEN {} ELSE Must(BagEq(SumBag(e.listing), SymBag(g, e.contents, G)), "content"))
       \cup Must(RowsIndependent(e.W, e.R), "independent")

Step(tr, k, s) ==
  LET e == tr[k] IN
  [st |-> s, bad |-> { Prop \o ":" \o c : c \in (IF e.exc # "" THEN {"raised"} ELSE Rtp(e)) }]

Init == TraceInit(0)
Next == TraceNext(Step)
Required == {"SU2", "SO3", "O3", "SL2C", "SO13", "Z2", "SUN", "PROD", "list", "sym", "formula", "contradiction", "n1", "n2", "n3", "n4", "Q"}
Accepted == TraceAccepted(Required)
=============================================================================
