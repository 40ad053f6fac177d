------------------------------ MODULE IrrepTrace ------------------------------
(* C01, C02: the tabulated generators satisfy the defining relations of the   *)
(* group and are the irreducible representation their label names.            *)
(*                                                                            *)
(* State machine: the first irrep of a group that is observed in a shard (its *)
(* trivial irrep) fixes the structure constants of the group; every later     *)
(* irrep of that group has to have the same ones.  mem = groups seen so far.   *)
EXTENDS TraceBase, Reps, Groups

LieDim(g) == CASE g[1] \in {"SU2", "SO3", "O3", "SU2Real"} -> 3
               [] g[1] \in {"SL2C", "SO13"} -> 6
               [] g[1] = "SUN" -> IF g[2] = 1 THEN 1 ELSE g[2] * g[2] - 1
               [] g[1] = "Z2" -> 0
NDisc(g) == IF g[1] \in {"O3", "Z2"} THEN 1 ELSE 0

Compact(g) == g[1] # "SO13"
IsRealType(l) == l[1] \in {"SO3", "O3", "SU2Real", "Z2"} \/ (l[1] = "SO13" /\ l[2] = l[3])

(* products are only formed of matrices with entries <= 24 and row sums <= 48 *)
Tame(M) == M.ok /\ \A i \in 1..M.n : RowL1(M.r[i]) <= 24576

(* sum of weighted products  sum_q w_q P_q Q_q  equals  c/den * 1 (c an integer) *)
ScalarSum(P, Q, w, ndx, c, den, d, tol) ==
  LET D == TLCEval([q \in ndx |-> Dense(Q[q])])
      C == TLCEval([q \in ndx |-> ColSets(Q[q])])
      ns == SetToSeq(ndx)
  IN \A r \in 1..d :
       \A col \in {r} \cup UNION { Supp(P[q].r[r], C[q]) : q \in ndx } :
         LET s == FoldLeft(LAMBDA acc, q : AddAcc(acc, ScaleAcc(w[q], DotS(P[q].r[r], D[q], col))), Acc0, ns)
             t == IF r = col THEN << s[1] - (262144 \div den) * c, s[2], s[3], s[4], s[5], s[6] >> ELSE s
         IN SmallAcc(t, tol)

Casimir2(l, X, d) ==
  LET t == l[1] IN
  CASE t \in {"SU2", "SU2Real"} ->
         ScalarSum(X, X, [q \in 1..3 |-> -1], 1..3, l[2] * (l[2] + 2), 4, d, Tol)
    [] t \in {"SO3", "O3"} -> ScalarSum(X, X, [q \in 1..3 |-> -1], 1..3, l[2] * (l[2] + 1), 1, d, Tol)
    [] t = "SL2C" ->
         LET a == l[2] * (l[2] + 2)  b == l[3] * (l[3] + 2) IN
         /\ ScalarSum(X, X, [q \in 1..6 |-> -2], 1..6, a + b, 1, d, 4 * Tol)
         /\ ScalarSum(X, [q \in 1..3 |-> X[q + 3]], [q \in 1..3 |-> -4], 1..3, a - b, 1, d, 4 * Tol)
    [] t = "SO13" ->
         LET a == l[2] * (l[2] + 2)  b == l[3] * (l[3] + 2) IN
         /\ ScalarSum(X, X, [q \in 1..6 |-> IF q <= 3 THEN -2 ELSE 2], 1..6, a + b, 1, d, 4 * Tol)
         \* i J.K = (a - b)/4:  J.K has the purely imaginary eigenvalue -i (a - b)/4
         /\ LET D == TLCEval([q \in 1..3 |-> Dense(X[q + 3])]) IN
            \A r \in 1..d : \A col \in 1..d :
              LET s == FoldLeft(LAMBDA acc, q : AddAcc(acc, DotS(X[q].r[r], D[q], col)), Acc0, << 1, 2, 3 >>)
              IN /\ SmallI(UnitsRe(s), Tol)
                 /\ SmallI(UnitsIm(s) + (IF r = col THEN (a - b) * 262144 ELSE 0), Tol)
    [] t = "SUN" ->
         LET N == Len(l[2])
             nr == N * (N - 1)     \* 2 * number of positive roots
             S == l[2]
             tot == SumSeq(S)
             \* 2N (lambda, lambda + 2 rho)
             c2 == 2 * N * SumSeq([i \in 1..N |-> S[i] * (S[i] + N + 1 - 2 * i)]) - 2 * tot * tot
             pairs == { << a, b >> \in (1..N-1) \X (1..N-1) : TRUE }
             roots == { << 0, q >> : q \in 1..nr }
             ndx == roots \cup pairs
             P == [q \in ndx |-> IF q[1] = 0 THEN X[q[2]] ELSE X[nr + q[1]]]
             Q == [q \in ndx |-> IF q[1] = 0 THEN X[q[2]] ELSE X[nr + q[2]]]
             w == [q \in ndx |-> IF q[1] = 0 THEN -N ELSE -2 * MinI(q[1], q[2]) * (N - MaxI(q[1], q[2]))]
         IN IF N = 1 THEN d = 1
            ELSE ScalarSum(P, Q, w, ndx, c2, 1, d, 2 * N * Tol)
    [] OTHER -> TRUE

(* moments of the Cartan generators over the weights: separates dual labels *)
Moments(l, X, d) ==
  IF l[1] # "SUN" \/ Len(l[2]) = 1 THEN TRUE
  ELSE LET N == Len(l[2])
           nr == N * (N - 1)
           B == Weights(l)
           \* the generators list the simple coroots from the last to the first: X_{nr+a} = i h_{N-a}
           D == TLCEval([a \in 1..N-1 |-> Dense(X[nr + a])])
           \* the square of a weight above 5 leaves the bounded numbers: a quarter of the generators is taken then
           sc == IF \A w \in DOMAIN B : \A q \in 1..Len(w) : AbsI(w[q]) <= 5 THEN 1 ELSE 4
           DQ == IF sc = 1 THEN D ELSE TLCEval([a \in 1..N-1 |-> FR(d, LAMBDA i : FR(d, LAMBDA j : FromUnits(RD(ReU(D[a][i][j]), sc), RD(ImU(D[a][i][j]), sc))))])
           P == TLCEval([a \in 1..N-1 |-> MulSD(SparseD(DQ[a], d, d), d, DQ[a], d)])
           Tr3(a, b) == FoldLeft(LAMBDA s, i : AddN(s, LET acc == DotS(SparseRow(P[a][i], d), DQ[b], i) IN FromUnits(RD(UnitsRe(acc), 64), RD(UnitsIm(acc), 64))),
                                 Z4, Idx(d))
           M3(a, b) == SumFcn([w \in DOMAIN B |-> B[w] * w[N - a] * w[N - a] * w[N - b]])
           Tr1(a) == FoldLeft(LAMBDA s, i : s + ImU(D[a][i][i]), 0, Idx(d))
       IN /\ \A a \in 1..N-1 : SmallI(Tr1(a), Tol)
          \* (-i h)^3 has trace  i sum w^3 ... X = i h, X^3 = -i h^3
          /\ \A a, b \in 1..N-1 :
               LET t == Tr3(a, b) IN SmallI(ReU(t), Tol) /\ SmallI(ImU(t) + (16384 \div (sc * sc * sc)) * M3(a, b), 2 * Tol)

GroupKey(g) == ToString(g)

Irrep(tr, k, s) ==
  LET e == tr[k]
      r == e.rep
      l == e.label
      g == GroupOf(l)
      h == tr[e.hdr].rep
      c01 == IF ~ShapesOk(r) THEN {"C01:shapes"}
             ELSE IF ~BoundedRep(r) THEN {"C01:bounded"}
             ELSE Must(r.n = h.n /\ r.h = h.h, "C01:generator-count")
                  \cup Must(NearAlg(r.A, h.A, Tol), "C01:same-constants")
                  \cup Must(r.n = 0 \/ BracketOk(r.X, r.A, r.d), "C01:bracket")
                  \cup Must(e.hdr # k \/ AntiSymmetricAlg(r.A), "C01:antisymmetry")
                  \cup Must(e.hdr # k \/ JacobiAlg(r.A), "C01:jacobi")
                  \cup Must(\A a \in 1..r.h : InvolutionM(r.H[a], r.d), "C01:involution")
                  \cup Must(\A a \in 1..r.h : \A b \in 1..r.n : CommuteM(r.H[a], r.X[b], r.d), "C01:H-commutes-X")
                  \cup Must(\A a, b \in 1..r.h : a < b => CommuteM(r.H[a], r.H[b], r.d), "C01:H-commutes-H")
      c02 == Must(r.d = e.dim /\ r.d = Dim(l), "C02:dimension")
             \cup IF ~ShapesOk(r) \/ r.n # LieDim(g) \/ r.h # NDisc(g) THEN {"C02:shapes"}
             ELSE IF ~BoundedRep(r) \/ (\E a \in 1..r.n : ~Tame(r.X[a])) THEN {"C02:bounded"}
             ELSE IF r.d # Dim(l) THEN {"C02:dimension"}
             ELSE Must(Casimir2(l, r.X, r.d), "C02:casimir")
                  \cup Must(Moments(l, r.X, r.d), "C02:moments")
                  \cup Must(~Compact(g) \/ \A a \in 1..r.n : AntiHermitianM(r.X[a]), "C02:anti-hermitian")
                  \cup Must(\A a \in 1..r.h : UnitaryM(r.H[a]), "C02:unitary-H")
                  \cup Must(~IsRealType(l) \/ (e.real /\ \A a \in 1..r.n : RealM(r.X[a])), "C02:real")
                  \cup Must(l[1] # "O3" \/ \A i \in 1..r.d : LET row == DenseRow(r.H[1].r[i], r.d) IN
                              \A j \in 1..r.d : NearN(row[j], IF i = j THEN IntNum(l[3]) ELSE Z4, Tol), "C02:parity")
                  \cup Must(l[1] # "Z2" \/ NearN(DenseRow(r.H[1].r[1], 1)[1], IntNum(l[2]), Tol), "C02:parity")
  IN [st |-> s \cup {ToString(g)},
      bad |-> (IF Prop = "C01" THEN c01 ELSE c02) \cup Must(e.hdr = k \/ ToString(g) \in s, "C01:header")]

Step(tr, k, s) ==
  LET e == tr[k] IN
  IF e.exc # "" THEN [st |-> s, bad |-> {"C01:raised", "C02:raised"}]
  ELSE Irrep(tr, k, s)

Init == TraceInit({})
Next == TraceNext(Step)
Spec == Init /\ [][Next]_tvars
Required == {"SU2", "SO3", "O3", "SL2C", "SO13", "SU2Real", "Z2", "SUN"}
Accepted == TraceAccepted(Required)
=============================================================================
