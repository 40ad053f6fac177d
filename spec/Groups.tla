-------------------------------- MODULE Groups --------------------------------
(* The label algebra of the tabulated groups: dimensions, weight multisets,   *)
(* decomposition of tensor products by removing highest weights, duality,     *)
(* reality.  Nothing here follows the implementation: selection rules and     *)
(* multiplicities are derived from the weights alone.                         *)
(*                                                                            *)
(* Labels:  <<"SU2", j>>  <<"SO3", l>>  <<"O3", l, p>>  <<"SL2C", l, k>>        *)
(*          <<"SO13", l, k>>  <<"SU2Real", 2j>>  <<"SUN", <<S1..Sn>>>>          *)
(*          <<"Z2", p>>  <<"PROD", label, label>>                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

RECURSIVE GroupOf(_)
GroupOf(l) == IF l[1] = "PROD" THEN << "PROD", GroupOf(l[2]), GroupOf(l[3]) >>
              ELSE IF l[1] = "SUN" THEN << "SUN", Len(l[2]) >>
              ELSE << l[1] >>

RECURSIVE Valid(_)
Valid(l) ==
  CASE l[1] = "SU2" -> l[2] >= 0
    [] l[1] = "SU2Real" -> l[2] >= 0
    [] l[1] = "SO3" -> l[2] >= 0
    [] l[1] = "O3" -> l[2] >= 0 /\ l[3] \in {-1, 1}
    [] l[1] = "SL2C" -> l[2] >= 0 /\ l[3] >= 0
    [] l[1] = "SO13" -> l[2] >= 0 /\ l[3] >= 0 /\ ((l[2] + l[3]) % 2) = 0
    [] l[1] = "SUN" -> /\ Len(l[2]) > 0 /\ l[2][Len(l[2])] = 0
                       /\ \A i \in 1..Len(l[2]) - 1 : l[2][i] >= l[2][i+1]
    [] l[1] = "Z2" -> l[2] \in {-1, 1}
    [] l[1] = "PROD" -> Valid(l[2]) /\ Valid(l[3])
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Bags: functions from weights (integer tuples) to multiplicities            *)
BagCount(B, w) == IF w \in DOMAIN B THEN B[w] ELSE 0
BagAdd(B, C) == [w \in DOMAIN B \cup DOMAIN C |-> BagCount(B, w) + BagCount(C, w)]
BagScale(k, B) == [w \in DOMAIN B |-> k * B[w]]
NoWeights == [w \in {} |-> 0]
BagEq(B, C) == \A w \in DOMAIN B \cup DOMAIN C : BagCount(B, w) = BagCount(C, w)

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
(* sum of the values of a function.  (FoldSet of the community modules counts  *)
(* an element of a union of Cartesian products twice; SetToSeq does not.)      *)
SumFcn(f) == LET ks == SetToSeq(DOMAIN f) IN SumSeq([i \in 1..Len(ks) |-> f[ks[i]]])
BagSize(B) == SumFcn(B)

(* rows interleaving with S (branching rule U(n) -> U(n-1)) *)
RECURSIVE NextRowsFrom(_, _)
NextRowsFrom(S, i) ==
  IF i >= Len(S) THEN { << >> }
  ELSE { << x >> \o r : x \in S[i+1]..S[i], r \in NextRowsFrom(S, i + 1) }
NextRows(S) == NextRowsFrom(S, 1)

RECURSIVE GTBag(_)
GTBag(S) ==
  IF Len(S) = 1 THEN (<< S[1] >> :> 1)
  ELSE FoldLeft(LAMBDA acc, R :
         LET B == GTBag(R)  d == SumSeq(S) - SumSeq(R)
         IN BagAdd(acc, [w \in { Append(v, d) : v \in DOMAIN B } |-> B[SubSeq(w, 1, Len(w) - 1)]]),
         NoWeights, SetToSeq(NextRows(S)))

DynkinW(mu) == [i \in 1..Len(mu) - 1 |-> mu[i] - mu[i+1]]

SpinSet(j) == { << 2 * k - j >> : k \in 0..j }

RECURSIVE Weights(_)
Weights(l) ==
  CASE l[1] = "SU2" -> [w \in SpinSet(l[2]) |-> 1]
    [] l[1] = "SO3" -> [w \in SpinSet(2 * l[2]) |-> 1]
    [] l[1] = "SU2Real" -> [w \in SpinSet(l[2]) |-> IF l[2] % 2 = 0 THEN 1 ELSE 2]
    [] l[1] = "O3" -> [w \in { << m[1], (1 - l[3]) \div 2 >> : m \in SpinSet(2 * l[2]) } |-> 1]
    [] l[1] \in {"SL2C", "SO13"} -> [w \in { << a[1], b[1] >> : a \in SpinSet(l[2]), b \in SpinSet(l[3]) } |-> 1]
    [] l[1] = "SUN" ->
         LET B == GTBag(l[2])  D == { DynkinW(mu) : mu \in DOMAIN B }
         \* the total is fixed, so mu -> Dynkin is injective
         IN [w \in D |-> B[CHOOSE mu \in DOMAIN B : DynkinW(mu) = w]]
    [] l[1] = "Z2" -> [w \in { << (1 - l[2]) \div 2 >> } |-> 1]
    [] l[1] = "PROD" ->
         LET A == Weights(l[2])  B == Weights(l[3])
         IN [w \in (DOMAIN A) \X (DOMAIN B) |-> A[w[1]] * B[w[2]]]

Dim(l) == BagSize(Weights(l))

(* closed dimension formulas, used as a cross-check in the model *)
RECURSIVE ProdTo(_, _)
ProdTo(f, n) == IF n = 0 THEN 1 ELSE f[n] * ProdTo(f, n - 1)
WeylSU(S) ==
  LET n == Len(S)
      P == { << i, j >> \in (1..n) \X (1..n) : i < j }
      num == FoldLeft(LAMBDA a, p : a * (S[p[1]] - S[p[2]] + p[2] - p[1]), 1, SetToSeq(P))
      den == FoldLeft(LAMBDA a, p : a * (p[2] - p[1]), 1, SetToSeq(P))
  IN num \div den
ClosedDim(l) ==   \* no products of groups; SU(N) up to N = 4 for large labels
  CASE l[1] = "SU2" -> l[2] + 1
    [] l[1] \in {"SO3", "O3"} -> 2 * l[2] + 1
    [] l[1] \in {"SL2C", "SO13"} -> (l[2] + 1) * (l[3] + 1)
    [] l[1] = "SUN" -> WeylSU(l[2])
    [] OTHER -> Dim(l)

-----------------------------------------------------------------------------
(* weight lattice operations per group *)
RECURSIVE WAdd(_, _, _)
WAdd(g, a, b) ==
  IF g[1] = "PROD" THEN << WAdd(g[2], a[1], b[1]), WAdd(g[3], a[2], b[2]) >>
  ELSE IF g[1] = "O3" THEN << a[1] + b[1], (a[2] + b[2]) % 2 >>
  ELSE IF g[1] = "Z2" THEN << (a[1] + b[1]) % 2 >>
  ELSE [i \in 1..Len(a) |-> a[i] + b[i]]
RECURSIVE WSub(_, _, _)
WSub(g, a, b) ==
  IF g[1] = "PROD" THEN << WSub(g[2], a[1], b[1]), WSub(g[3], a[2], b[2]) >>
  ELSE IF g[1] = "O3" THEN << a[1] - b[1], (a[2] + b[2]) % 2 >>
  ELSE IF g[1] = "Z2" THEN << (a[1] + b[1]) % 2 >>
  ELSE [i \in 1..Len(a) |-> a[i] - b[i]]

(* a linear functional that is positive on every positive root *)
RECURSIVE Height(_, _)
Height(g, w) ==
  CASE g[1] = "PROD" -> Height(g[2], w[1]) + Height(g[3], w[2])
    [] g[1] = "Z2" -> 0
    [] g[1] = "O3" -> w[1]
    [] g[1] = "SUN" -> SumSeq([i \in 1..Len(w) |-> i * (g[2] - i) * w[i]])
    [] OTHER -> SumSeq(w)

(* the irrep with highest weight w; 2j for SU2Real *)
RECURSIVE FromHighest(_, _)
FromHighest(g, w) ==
  CASE g[1] = "SU2" -> << "SU2", w[1] >>
    [] g[1] = "SU2Real" -> << "SU2", w[1] >>      \* content over C
    [] g[1] = "SO3" -> << "SO3", w[1] \div 2 >>
    [] g[1] = "O3" -> << "O3", w[1] \div 2, 1 - 2 * w[2] >>
    [] g[1] \in {"SL2C", "SO13"} -> << g[1], w[1], w[2] >>
    [] g[1] = "SUN" -> << "SUN", [i \in 1..g[2] |-> SumSeq([k \in 1..(g[2] - i) |-> w[i + k - 1]])] >>
    [] g[1] = "Z2" -> << "Z2", 1 - 2 * w[1] >>
    [] g[1] = "PROD" -> << "PROD", FromHighest(g[2], w[1]), FromHighest(g[3], w[2]) >>

BagMul(g, B, C) ==
  LET ks == SetToSeq(DOMAIN B)
      W == { WAdd(g, a, b) : a \in DOMAIN B, b \in DOMAIN C }
  IN TLCEval([w \in W |-> SumSeq([i \in 1..Len(ks) |-> B[ks[i]] * BagCount(C, WSub(g, w, ks[i]))])])

(* <<label, multiplicity>> pairs; peels off highest weights *)
RECURSIVE Peel(_, _, _)
Peel(g, B, acc) ==
  LET P == { w \in DOMAIN B : B[w] # 0 }
  IN IF P = {} THEN acc
     ELSE LET top == CHOOSE w \in P : \A v \in P : Height(g, w) >= Height(g, v)
              l == FromHighest(g, top)
              m == B[top]
              L == Weights(l)
          IN IF m < 0 THEN Append(acc, << l, m >>)   \* not a character
             ELSE Peel(g, TLCEval([w \in P |-> B[w] - m * BagCount(L, w)]), Append(acc, << l, m >>))
Decompose(g, B) == Peel(g, B, << >>)

RECURSIVE TrivialOf(_)
TrivialOf(g) ==
  CASE g[1] = "PROD" -> << "PROD", TrivialOf(g[2]), TrivialOf(g[3]) >>
    [] g[1] = "SUN" -> << "SUN", [i \in 1..g[2] |-> 0] >>
    [] g[1] = "O3" -> << "O3", 0, 1 >>
    [] g[1] \in {"SL2C", "SO13"} -> << g[1], 0, 0 >>
    [] g[1] = "Z2" -> << "Z2", 1 >>
    [] OTHER -> << g[1], 0 >>

ContentOfSeq(s) ==   \* sequence of <<label, mult>> -> function label -> total multiplicity
  FoldLeft(LAMBDA f, e : IF e[2] = 0 THEN f ELSE IF e[1] \in DOMAIN f THEN [f EXCEPT ![e[1]] = @ + e[2]] ELSE f @@ (e[1] :> e[2]),
           [x \in {} |-> 0], s)
ContentEq(c, d) == DOMAIN c = DOMAIN d /\ \A x \in DOMAIN c : c[x] = d[x]

ProductContent(a, b) == ContentOfSeq(Decompose(GroupOf(a), BagMul(GroupOf(a), Weights(a), Weights(b))))

(* weights of a sum of <<label, mult>> *)
SumBag(s) == FoldLeft(LAMBDA B, e : IF e[2] = 0 THEN B ELSE BagAdd(B, BagScale(e[2], Weights(e[1]))), NoWeights, s)

(* dimension of the space of equivariant maps between two bags *)
HomDim(g, B, C) ==
  LET b == ContentOfSeq(Decompose(g, B))  c == ContentOfSeq(Decompose(g, C))
  IN SumFcn([l \in (DOMAIN b) \cap (DOMAIN c) |-> b[l] * c[l]])

(* the label of the complex conjugate matrices *)
RECURSIVE ConjLabel(_)
ConjLabel(l) ==
  CASE l[1] = "SUN" -> << "SUN", [i \in 1..Len(l[2]) |-> l[2][1] - l[2][Len(l[2]) + 1 - i]] >>
    [] l[1] = "SO13" -> << "SO13", l[3], l[2] >>
    [] l[1] = "PROD" -> << "PROD", ConjLabel(l[2]), ConjLabel(l[3]) >>
    [] OTHER -> l

(* Frobenius-Schur indicator: 1 real, -1 quaternionic, 0 complex *)
RECURSIVE Reality(_)
Reality(l) ==
  CASE l[1] = "SU2" -> IF l[2] % 2 = 0 THEN 1 ELSE -1
    [] l[1] = "SL2C" -> IF (l[2] + l[3]) % 2 = 0 THEN 1 ELSE -1
    [] l[1] = "SO13" -> IF l[2] = l[3] THEN 1 ELSE 0
    [] l[1] = "SUN" ->
         IF ConjLabel(l) # l THEN 0
         ELSE LET n == Len(l[2]) IN
              IF n % 4 = 2 /\ (l[2][n \div 2] - l[2][(n \div 2) + 1]) % 2 = 1 THEN -1 ELSE 1
    [] l[1] = "PROD" -> Reality(l[2]) * Reality(l[3])
    [] OTHER -> 1
=============================================================================
