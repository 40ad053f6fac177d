-------------------------------- MODULE ExpTrace --------------------------------
(* C19: the exponential map.                                                  *)
(*                                                                            *)
(* Parameters are dyadic (t in units of 2^-10).  For small parameters the     *)
(* matrix is compared with the Taylor series of the logged generators; larger *)
(* parameters are reached by the one-parameter law along a logged chain       *)
(* E(t / 2^s), .., E(t / 2), E(t).  Powers of the discrete generators are     *)
(* multiplied out here in their order.                                        *)
EXTENDS TraceBase, Exponential

Exp(e) ==
  LET r == e.rep  d == r.d IN
  IF ~ShapesOk(r) \/ ~BoundedRep(r) THEN {}
  ELSE
    Must(Sq(e.zero, d) /\ IsIdentityM(e.zero, 2), "identity")
    \cup (LET M == Comb(e.tsmall, r.X, d) IN
          IF EntryMax(M, d) > 1048576 THEN {} ELSE Must(Near2(Taylor(M, d), e.chain[1], d, ETol), "taylor"))
    \cup Must(\A q \in 2..Len(e.chain) : ProductIs(e.chain[q - 1], e.chain[q - 1], e.chain[q], d, ETol), "group-law")
    \cup Must(ProductIs(e.es, e.et, e.est, d, ETol) /\ ProductIs(e.et, e.es, e.est, d, ETol), "one-parameter")
    \cup (IF ~InversesOk(e) THEN {} ELSE Must(Near2(DiscreteOf(r.H, e.iH, e.k, d), e.disc, d, ETol), "discrete-powers"))
    \cup Must(ProductIs(e.disc, e.chain[Len(e.chain)], e.full, d, ETol), "discrete-first")
    \cup Must(Sq(e.full, d), "shape")

(* E(rep1 (x) rep2) = E(rep1) (x) E(rep2); E(rep1 (+) rep2) block diagonal; E of Q rep Q^-1 *)
Fits(M, lim) == BoundedM(M) /\ \A i \in 1..M.n : RowL1(M.r[i]) <= lim
Compose(e) ==
  LET a == e.a  b == e.b IN
  IF ~(Fits(a, 8000) /\ Fits(b, 2000)) THEN {}
  ELSE Must(NearDM(KronD(Dense(a), a.n, a.n, Dense(b), b.n, b.n), e.tp, a.n * b.n, a.n * b.n, 4 * ETol), "tensor-product")
       \cup Must(NearDM(DSumD(Dense(a), a.n, a.n, Dense(b), b.n, b.n), e.sum, a.n + b.n, a.n + b.n, Tol), "direct-sum")
Basis(e) ==
  LET d == e.e.n IN
  IF ~(BoundedM(e.e) /\ BoundedM(e.Q)) THEN {}
  ELSE Must(Sq(e.cb, d) /\ (BoundedM(e.cb) => IsProduct(e.cb.r, d, Dense(e.Q), d, MulSD(e.Q.r, d, Dense(e.e), d), 8 * ETol)), "change-of-basis")

(* NumPy and JAX (single precision) *)
Jax(e) == IF ~BoundedM(e.np) THEN {} ELSE Must(BoundedM(e.jax) /\ NearM(e.np, e.jax, 2048), "jax")
JaxPow(e) ==
  LET d == Len(e.F)
      M(A, B) == TLCEval([i \in 1..d |-> TLCEval([j \in 1..d |-> FoldLeft(LAMBDA s, q : << s[1] + A[i][q][1] * B[q][j][1] - A[i][q][2] * B[q][j][2],
                                                                                  s[2] + A[i][q][1] * B[q][j][2] + A[i][q][2] * B[q][j][1] >>, << 0, 0 >>, Idx(d))])])
      RECURSIVE P(_)
      P(k) == IF k = 0 THEN [i \in 1..d |-> [j \in 1..d |-> << IF i = j THEN 1 ELSE 0, 0 >>]] ELSE M(P(k - 1), e.F)
      R == P(e.k)
  IN Must(Len(e.out) = d /\ \A i, j \in 1..d : e.out[i][j] = R[i][j], "jax-power")

BigPow(e) ==
  LET d == Len(e.H[1])
      P(q) == IF e.k[q] >= 0 THEN GPow(e.H[q], e.k[q], d) ELSE GPow(GAdj(e.H[q], d), -e.k[q], d)
      R == FoldLeft(LAMBDA s, q : GMul(s, P(q), d), GOne(d), Idx(Len(e.H)))
      Is(M) == Len(M) = d /\ \A i, j \in 1..d : M[i][j] = R[i][j]
  IN Must(Is(e.np), "discrete-powers") \cup Must(Is(e.jax), "jax")

(* the derivative at the identity: e.diff is (E(2^-30 t) - 1) / 2^-30 *)
Deriv(e) ==
  LET r == e.rep  d == r.d IN
  IF ~ShapesOk(r) \/ ~BoundedRep(r) THEN {} ELSE Must(Near2(Comb(e.t, r.X, d), e.diff, d, ETol), "derivative")

Clauses(e) ==
  CASE e.op = "exp" -> Exp(e)
    [] e.op = "deriv" -> Deriv(e)
    [] e.op = "compose" -> Compose(e)
    [] e.op = "basis" -> Basis(e)
    [] e.op = "jax" -> Jax(e)
    [] e.op = "jaxpow" -> JaxPow(e)
    [] e.op = "bigpow" -> BigPow(e)
    [] OTHER -> {}
Tag(cs) == { Prop \o ":" \o c : c \in cs }
Step(tr, k, s) == LET e == tr[k] IN [st |-> s, bad |-> Tag(IF e.exc # "" THEN {"raised"} ELSE Clauses(e))]
Init == TraceInit(<< >>)
Next == TraceNext(Step)
Spec == Init /\ [][Next]_tvars
Required == {"exp", "deriv", "compose", "basis", "jax", "jaxpow", "bigpow", "bigneg", "SU2", "SO3", "O3", "SL2C", "SO13", "SU2Real", "SUN", "Z2", "PROD", "S3", "S4", "negative", "twodiscrete", "generic", "complexbasis",
             "HEIS", "NIL", "AFF", "EUCL", "JORD", "U1", "LF", "A4"}
Accepted == TraceAccepted(Required)
=============================================================================
