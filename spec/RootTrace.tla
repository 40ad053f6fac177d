-------------------------------- MODULE RootTrace --------------------------------
(* C25: root systems of the classical families and Weyl dimensions.           *)
(*                                                                            *)
(* The root system is generated here as a set of integer vectors (families    *)
(* A, B, C, D); its positive half is taken in the lexicographic order; simple *)
(* roots, highest root, Weyl vector, Cartan matrix and Coxeter number are     *)
(* derived from that set.  Logged vectors come multiplied by their scale K    *)
(* (with a flag that says whether they were integral then).                   *)
EXTENDS TraceBase, RootSystems

Scaled(k, v, n) == Vec(n, LAMBDA i : k * v[i])
IsVecs(L, len, n) == L.ok /\ L.shape = << len, n >>
ToSetOf(L) == { L.v[i] : i \in 1..Len(L.v) }

System(e) ==
  LET f == e.family  r == e.rank  n == Ambient(f, r)  K == e.scale
      P == PosRoots(f, r)
      S == SimpleOf(P, n)
      shapes == IsVecs(e.simple, r, n) /\ IsVecs(e.positive, Cardinality(P), n) /\ IsVecs(e.fundamental, r, n)
                /\ e.highest.ok /\ e.highest.shape = << n >> /\ e.weyl.ok /\ e.weyl.shape = << n >> /\ e.cartan.ok /\ e.cartan.shape = << r, r >>
  IN IF ~shapes THEN {"system-shapes"}
     ELSE Must(ToSetOf(e.positive) = { Scaled(K, v, n) : v \in P }, "positive-roots")
          \cup Must(ToSetOf(e.simple) = { Scaled(K, v, n) : v \in S }, "simple-roots")
          \cup Must(\A i, j \in 1..r : LET a == e.simple.v[i]  b == e.simple.v[j] IN 2 * Dot(a, b, n) = CartanOf(f, r, i, j) * Dot(a, a, n), "simple-order")
          \cup Must(\A i, j \in 1..r : e.cartan.v[i][j] = K * CartanOf(f, r, i, j), "cartan-matrix")
          \cup Must(\A i, j \in 1..r : LET a == e.simple.v[j] IN 2 * Dot(e.fundamental.v[i], a, n) = (IF i = j THEN 1 ELSE 0) * Dot(a, a, n), "dual-weights")
          \cup Must(f # "A" \/ \A i \in 1..r : FoldLeft(LAMBDA s, k : s + e.fundamental.v[i][k], 0, Idx(n)) = 0, "weights-in-span")
          \cup Must((f = "D" /\ r = 2) \/ { e.highest.v } = { Scaled(K, v, n) : v \in Highest(P, n) }, "highest-root")
          \cup Must(\A k \in 1..n : 2 * e.weyl.v[k] = K * SumOf([v \in P |-> v[k]]), "weyl-vector")
          \cup Must(\A k \in 1..n : e.weyl.v[k] = FoldLeft(LAMBDA s, i : s + e.fundamental.v[i][k], 0, Idx(r)), "weyl-vector-sum")
          \cup Must(e.coxeter.ok /\ e.coxeter.v * r = 2 * Cardinality(P), "coxeter")

-----------------------------------------------------------------------------
(* twice the highest weight with Dynkin label S, in the e-basis *)
Twice(f, S) ==
  LET r == Len(S)
      TailSum(i) == FoldLeft(LAMBDA s, k : s + S[k], 0, SelectSeq(Idx(r), LAMBDA k : k >= i /\ k < r))
  IN CASE f = "B" -> Vec(r, LAMBDA i : 2 * TailSum(i) + S[r])
       [] f = "C" -> Vec(r, LAMBDA i : 2 * TailSum(i) + 2 * S[r])
       [] f = "D" -> Vec(r, LAMBDA i : IF i = r THEN S[r] - S[r - 1] ELSE 2 * (TailSum(i) - S[r - 1]) + S[r - 1] + S[r])
ModLimbs(l, p) == FoldLeft(LAMBDA s, x : (s * 32768 + x) % p, 0, l)      \* most significant first; (p-1) * 32768 + 32767 < 2^31
Weyl(e, p) ==
  LET f == e.family  r == Len(e.S)
      lam == Twice(f, e.S)  rho == Twice(f, [i \in 1..r |-> 1])
      P == SetToSeq(PosRoots(f, r))
      num == FoldLeft(LAMBDA s, v : (s * (Dot(lam, v, r) + Dot(rho, v, r))) % p, 1, P)
      den == FoldLeft(LAMBDA s, v : (s * Dot(rho, v, r)) % p, 1, P)
  IN (ModLimbs(e.dim, p) * den) % p = num
(* (p-1) * factor has to stay below 2^31: factors up to 46000 *)

-----------------------------------------------------------------------------
(* so(n) of the form J pairing i with i + n/2 (and the last index with itself when n is odd) *)
Partner(n, i) == LET h == n \div 2 IN IF i > 2 * h THEN i ELSE IF i <= h THEN i + h ELSE i - h
PreservesForm(M, n) == \A i, j \in 1..n : M[Partner(n, i)][j] + M[Partner(n, j)][i] = 0   \* (J M)_ij + (M^T J)_ij
Flat(M, n) == [q \in 1..(n * n) |-> << M[((q - 1) \div n) + 1][((q - 1) % n) + 1], 0 >>]
Adjoint(e) ==
  LET n == e.n  N == Len(e.X) IN
  IF ~(e.ok /\ e.shape = << N, n, n >> /\ e.hshape = << 0, n, n >>) THEN {"so-shapes"}
  ELSE Must(\A k \in 1..N : PreservesForm(e.X[k], n), "so-form")
       \cup Must(RankR([k \in 1..N |-> Flat(e.X[k], n)], n * n) = (n * (n - 1)) \div 2, "so-complete")

Clauses(e) ==
  CASE e.op = "system" -> System(e)
    [] e.op = "dim" -> Must(e.integer /\ Weyl(e, P1) /\ Weyl(e, P2), "weyl-dimension") \cup Must(e.hshape = << 0, e.d31, e.d31 >>, "discrete-shape")
    [] e.op = "adjoint" -> Adjoint(e)
    [] OTHER -> {}
Tag(cs) == { Prop \o ":" \o c : c \in cs }
Step(tr, k, s) == LET e == tr[k] IN [st |-> s, bad |-> Tag(IF e.exc # "" THEN {"raised"} ELSE Clauses(e))]
Init == TraceInit(<< >>)
Next == TraceNext(Step)
Spec == Init /\ [][Next]_tvars
Required == {"system", "dim", "adjoint", "A2", "A5", "B2", "B3", "B5", "C2", "C3", "C5", "D2", "D3", "D4", "D5", "SON2", "SON3", "SON4", "SPN2", "SPN3", "SPN4", "big", "so3", "so4", "so5", "so6", "so7"}
Accepted == TraceAccepted(Required)
=============================================================================
