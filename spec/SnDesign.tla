------------------------------- MODULE SnDesign -------------------------------
(* Design model of representations of S_n given by matrices of t = (1 2) and  *)
(* c = (1 2 .. n).  A state is a word in the generators, as the permutation   *)
(* it names and the product of the matrices along it.                         *)
(*   WellDefined  matrices admitted by Relations (all pairs of signed         *)
(*                permutation matrices, and the tabulated representations)    *)
(*                send every word that names the identity to the identity:    *)
(*                the relations are a presentation                            *)
(*   Traces       the tabulated ones have the characters of permutations      *)
(*   Exact        and are admitted, with the mutations of FinTrace rejected   *)
EXTENDS SymmetricGroup
CONSTANTS MaxN, SignedDim, SignedN
VARIABLES n, d, kind, H, p, M
vars == << n, d, kind, H, p, M >>

One(m) == [i \in 1..m |-> i]
After(f, h) == [i \in 1..Len(f) |-> f[h[i]]]
(* the standard representation in the basis f_k = e_(k+1) - e_1 *)
StdMat(g) == LET m == Len(g) IN
  FM(m - 1, m - 1, LAMBDA i, k : (IF g[k + 1] = i + 1 THEN 1 ELSE 0) - (IF g[1] = i + 1 THEN 1 ELSE 0))
Tab(kd, m) == [k \in 1..Len(GensOf(m)) |-> CASE kd = "nat" -> PermMat(GensOf(m)[k], m) [] kd = "std" -> StdMat(GensOf(m)[k]) [] OTHER -> << << 1 >> >>]
Perm(m) == { f \in [1..m -> 1..m] : \A i, j \in 1..m : i # j => f[i] # f[j] }
Signed(m) == { FM(m, m, LAMBDA i, j : IF i = f[j] THEN s[j] ELSE 0) : f \in Perm(m), s \in [1..m -> {-1, 1}] }
Mutants(h, m) == { [h EXCEPT ![k] = [@ EXCEPT ![i] = [@ EXCEPT ![j] = @ + x]]] : k \in 1..Len(h), i \in 1..m, j \in 1..m, x \in {-1, 1} }

Init == /\ \/ \E m \in 2..MaxN, kd \in {"nat", "std", "triv"} : n = m /\ kind = kd /\ d = DimOf(kd, m) /\ H = Tab(kd, m)
           \/ \E m \in SignedN : /\ n = m /\ kind = "signed" /\ d = SignedDim
                                 /\ \E a, b \in Signed(SignedDim) : H = << a, b >> /\ Relations(H, n, d)
        /\ p = One(n) /\ M = Id(d)
Next == /\ \E k \in 1..Len(H) : p' = After(p, GensOf(n)[k]) /\ M' = Mul(M, H[k], d, d, d)
        /\ UNCHANGED << n, d, kind, H >>
Spec == Init /\ [][Next]_vars

WellDefined == p = One(n) => Same(M, Id(d), d, d)
Tr == FoldLeft(LAMBDA s, i : s + M[i][i], 0, Idx(d))
Fixed == Cardinality({ i \in 1..n : p[i] = i })
Traces == CASE kind = "nat" -> Tr = Fixed /\ Same(M, PermMat(p, n), n, n)
            [] kind = "std" -> Tr = Fixed - 1
            [] kind = "triv" -> Tr = 1
            [] OTHER -> TRUE
Exact == p # One(n) \/ kind = "signed" \/
         /\ Relations(H, n, d) /\ \A k \in 1..Len(H) : SmallInts(H[k], d, d)
         /\ (kind = "triv" \/ (kind = "std" /\ n = 2)) \/ Faithful(H, n, d)
         /\ kind # "std" \/ \A k \in 1..Len(H) : Same(Mul(Diff(n), H[k], n, d, d), Mul(PermMat(GensOf(n)[k], n), Diff(n), n, n, d), n, d)
         /\ (kind # "triv" /\ d > 1) => \A h \in Mutants(H, d) :
               ~Relations(h, n, d) \/ \E k \in 1..Len(h) : (kind = "std" /\ ~Same(Mul(Diff(n), h[k], n, d, d), Mul(PermMat(GensOf(n)[k], n), Diff(n), n, n, d), n, d))
                                                           \/ (kind = "nat" /\ ~Same(h[k], PermMat(GensOf(n)[k], n), n, n))
(* the words name n! permutations, so that there are n! states for each representation of dimension d *)
RECURSIVE Fact(_)
Fact(m) == IF m = 0 THEN 1 ELSE m * Fact(m - 1)
=============================================================================
