-------------------------------- MODULE FinTrace --------------------------------
(* C24: representations of the symmetric groups and regular representations.  *)
(*                                                                            *)
(* Integer matrices are logged exactly as sequences of rows.  The defining    *)
(* relations of S_n in the generators t = (1 2), c = (1 2 .. n):              *)
(*    t^2 = c^n = (c t)^(n-1) = 1,   t commutes with c^k t c^-k, 2 <= k <= n/2 *)
(* are evaluated on the logged matrices; the matrices themselves are computed *)
(* from the permutations (natural) and from the difference basis (standard).  *)
EXTENDS TraceBase, SymmetricGroup

Sn(e) ==
  LET n == e.n  d == DimOf(e.kind, n)  g == GensOf(n) IN
  IF ~(e.integral /\ e.dim = d /\ e.ashape = << 0, 0, 0 >> /\ e.xshape = << 0, d, d >> /\ e.hshape = << Len(g), d, d >>
       /\ Len(e.H) = Len(g) /\ \A k \in 1..Len(g) : SmallInts(e.H[k], d, d)) THEN {"shapes"}
  ELSE Must(Relations(e.H, n, d), "relations")
       \cup Must(e.tshape = << Len(g), 1, 1 >> /\ e.txshape = << 0, 1, 1 >> /\ \A k \in 1..Len(g) : e.T[k] = << << 1 >> >>, "trivial")
       \cup (CASE e.kind = "nat" -> Must(\A k \in 1..Len(g) : Same(e.H[k], PermMat(g[k], n), n, n), "permutation-matrices")
               [] e.kind = "std" -> LET B == Diff(n) IN
                    Must(\A k \in 1..Len(g) : Same(Mul(B, e.H[k], n, d, d), Mul(PermMat(g[k], n), B, n, n, d), n, d), "difference-basis")
               [] OTHER -> Must(\A k \in 1..Len(g) : e.H[k] = << << 1 >> >>, "trivial"))
       \cup (IF e.kind = "triv" \/ (e.kind = "std" /\ n = 2) \/ n = 1 THEN {} ELSE Must(Faithful(e.H, n, d), "orders"))

(* natural = trivial + standard: [1 | B] intertwines them, and is invertible as its integer left inverse shows *)
Split(e) ==
  LET n == e.n  g == GensOf(n)
      S == FM(n, n, LAMBDA i, j : IF j = 1 THEN 1 ELSE Diff(n)[i][j - 1])
      Sum(k) == FM(n, n, LAMBDA i, j : IF i = 1 /\ j = 1 THEN e.T[k][1][1] ELSE IF i = 1 \/ j = 1 THEN 0 ELSE e.S[k][i - 1][j - 1])
      \* n S^-1: first row all ones, row k+1 is n e_(k+1) - 1
      L == FM(n, n, LAMBDA i, j : IF i = 1 THEN 1 ELSE IF i = j THEN n - 1 ELSE -1)
  IN Must(\A k \in 1..Len(g) : Same(Mul(e.N[k], S, n, n, n), Mul(S, Sum(k), n, n, n), n, n), "natural-splits")
     \cup Must(Same(Mul(L, S, n, n, n), FM(n, n, LAMBDA i, j : IF i = j THEN n ELSE 0), n, n), "spec-inverse")

(* group tables *)
IsGroup(t, n) ==
  /\ \A i, j \in 1..n : t[i][j] \in 1..n
  /\ \A i, j, k \in 1..n : t[t[i][j]][k] = t[i][t[j][k]]
  /\ \E u \in 1..n : (\A i \in 1..n : t[u][i] = i /\ t[i][u] = i) /\ \A i \in 1..n : \E j \in 1..n : t[i][j] = u
Regular(e) ==
  LET n == e.n  t == e.table IN
  IF ~IsGroup(t, n) THEN {}
  ELSE IF e.shape # << n, n, n >> \/ ~e.integral THEN {"regular-shape"}
  ELSE Must(\A g \in 1..n : \A i, j \in 1..n : e.D[g][i][j] = (IF i = t[g][j] THEN 1 ELSE 0), "left-multiplication")
       \cup (IF n > 8 THEN {} ELSE Must(\A g, h \in 1..n : Same(Mul(e.D[g], e.D[h], n, n, n), e.D[t[g][h]], n, n), "homomorphism"))

Clauses(e) ==
  CASE e.op = "sn" -> Sn(e)
    [] e.op = "split" -> Split(e)
    [] e.op = "regular" -> Regular(e)
    [] e.op = "refused" -> Must(e.err, "refused")
    [] OTHER -> {}
Tag(cs) == { Prop \o ":" \o c : c \in cs }
Step(tr, k, s) == LET e == tr[k] IN [st |-> s, bad |-> Tag(IF e.exc # "" THEN {"raised"} ELSE Clauses(e))]
Init == TraceInit(<< >>)
Next == TraceNext(Step)
Spec == Init /\ [][Next]_tvars
Required == {"sn", "split", "regular", "nat", "std", "triv", "nonabelian", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8"}
Accepted == TraceAccepted(Required)
=============================================================================
