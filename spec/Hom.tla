---------------------------------- MODULE Hom ----------------------------------
(* Spaces of equivariant maps: their dimension from the contents of the       *)
(* representations, and independence of logged solutions.                     *)
(* A content is a sequence of <<label, multiplicity>>; besides the labels of  *)
(* Groups there are <<"SN", kind, n>> for representations of the symmetric    *)
(* group S_n, whose multiplicities follow from characters.                    *)
EXTENDS Reps, Groups, Finite

CTol == 8 * Tol
Guard4(x) == AbsI(x[1]) <= 70000 /\ AbsI(x[3]) <= 70000
RepFit(r) == ShapesOk(r) /\ BoundedRep(r)

(* independence: the Gram matrix of the solutions has the logged inverse *)
Gram(W) ==
  LET n == Len(W)
      D == TLCEval([z \in 1..n |-> Dense(W[z])])
      Ip(a, b) == FoldLeft(LAMBDA s, i : FoldLeft(LAMBDA t, e : MacS(t, e, ConjN(D[b][i][e[1]])), s, W[a].r[i]), Acc0, Idx(W[a].n))
      \* divided by 4: a norm is at most 128
      Q(s) == FromUnits(Clamp(RD(UnitsRe(s), 4)), Clamp(RD(UnitsIm(s), 4)))
  IN FR(n, LAMBDA a : FR(n, LAMBDA b : Q(Ip(a, b))))
Independent(W, iG) ==
  LET n == Len(W) IN
  n = 0 \/ ( iG.n = n /\ iG.m = n /\ BoundedM(iG) /\ IsProduct(SparseD(Gram(W), n, n), n, Dense(iG), n,
              FR(n, LAMBDA i : FR(n, LAMBDA j : IF i = j THEN << 128, 0, 0, 0 >> ELSE Z4)), 256 * Tol))

(* finite symmetric groups: characters from permutations *)
Chi(kind, p, n) ==
  LET fix == Cardinality({ i \in 1..n : p[i] = i })
      inv == Cardinality({ ij \in (1..n) \X (1..n) : ij[1] < ij[2] /\ p[ij[1]] > p[ij[2]] })
  IN CASE kind = "nat" -> fix [] kind = "std" -> fix - 1 [] kind = "triv" -> 1
       [] kind = "sign" -> IF inv % 2 = 0 THEN 1 ELSE -1
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
ChiSum(li, p, n) == FoldLeft(LAMBDA s, e : s + e[2] * Chi(e[1][2], p, n), 0, li)

(* groups without a table in the library, whose irreps are named and pairwise *)
(* inequivalent: U(1), O(2), SU(2) x S_3, abelian groups <<"AB", q, s>> with   *)
(* charges q in units of 1/32 and signs s, finite groups <<h, i>> with a table  *)
(* of characters, and <<"LF", l, <<h, i>>>>: a label of a Lie group times one  *)
Ext == {"U1", "O2", "AB", "MIX", "LF"} \cup Groups5
ChiS3(k, p) == Chi(k, p, 3)
NS3(a, b, c) == SumFcn([p \in Permutations(1..3) |-> ChiS3(a, p) * ChiS3(b, p) * ChiS3(c, p)]) \div 6
B01(b) == IF b THEN 1 ELSE 0
\* multiplicity of the irrep c in the product of the irreps a and b
ExtMult(a, b, c) ==
  CASE a[1] = "U1" -> B01(a[2] + b[2] = c[2])
    [] a[1] = "AB" -> B01((\A i \in 1..Len(a[2]) : a[2][i] + b[2][i] = c[2][i]) /\ (\A i \in 1..Len(a[3]) : a[3][i] * b[3][i] = c[3][i]))
    [] a[1] = "O2" ->
         IF a[2] = 0 /\ b[2] = 0 THEN B01(c[2] = 0 /\ c[3] = a[3] * b[3])
         ELSE IF a[2] = 0 \/ b[2] = 0 THEN B01(c[2] = a[2] + b[2])
         ELSE IF c[2] = 0 THEN B01(a[2] = b[2])
         ELSE B01(c[2] = a[2] + b[2] \/ c[2] = AbsI(a[2] - b[2]))
    [] a[1] = "MIX" -> B01(c[2] >= AbsI(a[2] - b[2]) /\ c[2] <= a[2] + b[2] /\ ((a[2] + b[2] + c[2]) % 2) = 0) * NS3(a[3], b[3], c[3])
    [] a[1] \in Groups5 -> FinMult(a[1], a[2], b[2], c[2])
    [] a[1] = "LF" ->
         LET g == GroupOf(a[2]) IN
         HomDim(g, BagMul(g, Weights(a[2]), Weights(b[2])), Weights(c[2])) * FinMult(a[3][1], a[3][2], b[3][2], c[3][2])
ConjExt(l) == CASE l[1] = "U1" -> << "U1", -l[2] >> [] l[1] = "AB" -> << "AB", [i \in 1..Len(l[2]) |-> -l[2][i]], l[3] >> [] l[1] \in {"O2", "MIX"} -> l [] l[1] \in Groups5 -> << l[1], FinConj(l[1], l[2]) >>
                [] l[1] = "LF" -> << "LF", ConjLabel(l[2]), << l[3][1], FinConj(l[3][1], l[3][2]) >> >>
RealityExt(l) == CASE l[1] = "U1" -> IF l[2] = 0 THEN 1 ELSE 0 [] l[1] = "AB" -> B01(\A i \in 1..Len(l[2]) : l[2][i] = 0) [] l[1] = "O2" -> 1 [] l[1] = "MIX" -> IF l[2] % 2 = 0 THEN 1 ELSE -1
                   [] l[1] \in Groups5 -> FinReality(l[1], l[2])
                   [] l[1] = "LF" -> Reality(l[2]) * FinReality(l[3][1], l[3][2])
ConjL(l) == IF l[1] \in Ext THEN ConjExt(l) ELSE ConjLabel(l)
RealityL(l) == IF l[1] \in Ext THEN RealityExt(l) ELSE Reality(l)

Hom3(c1, c2, c3) ==
  IF c3[1][1][1] \in Ext
  THEN FoldLeft(LAMBDA s, x : s + FoldLeft(LAMBDA t, y : t + FoldLeft(LAMBDA u, z : u + x[2] * y[2] * z[2] * ExtMult(x[1], y[1], z[1]), 0, c3), 0, c2), 0, c1)
  ELSE IF c3[1][1][1] = "SN"
  THEN LET n == c3[1][1][3] IN
       SumFcn([p \in Permutations(1..n) |-> ChiSum(c1, p, n) * ChiSum(c2, p, n) * ChiSum(c3, p, n)]) \div Fact(n)
  ELSE LET g == GroupOf(c3[1][1]) IN HomDim(g, BagMul(g, SumBag(c1), SumBag(c2)), SumBag(c3))


Hom2(c1, c2) ==
  IF c1[1][1][1] \in Ext
  THEN FoldLeft(LAMBDA s, x : s + FoldLeft(LAMBDA t, y : IF x[1] = y[1] THEN t + x[2] * y[2] ELSE t, 0, c2), 0, c1)
  ELSE IF c1[1][1][1] = "SN"
  THEN LET n == c1[1][1][3] IN
       SumFcn([p \in Permutations(1..n) |-> ChiSum(c1, p, n) * ChiSum(c2, p, n)]) \div Fact(n)
  ELSE HomDim(GroupOf(c1[1][1]), SumBag(c1), SumBag(c2))

(* P A = B P for logged matrices, P of shape d2 x d1 *)
Twines(P, A, B, d1, d2) ==
  LET a == Dense(A)  p == Dense(P) IN
  \A i \in 1..d2 : \A j \in 1..d1 : SmallAcc(DotSSub(DotS(P.r[i], a, j), B.r[i], p, j), CTol)
TwinesRep(P, r1, r2) ==
  /\ r1.n = r2.n /\ r1.h = r2.h
  /\ \A a \in 1..r1.n : Twines(P, r1.X[a], r2.X[a], r1.d, r2.d)
  /\ \A a \in 1..r1.h : Twines(P, r1.H[a], r2.H[a], r1.d, r2.d)

(* equivalence certified by a logged matrix S and its logged inverse *)
InverseM(S, iS, d) == /\ S.ok /\ iS.ok /\ S.n = d /\ S.m = d /\ iS.n = d /\ iS.m = d /\ BoundedM(S) /\ BoundedM(iS) /\ ColL1Ok(iS)
                      /\ IsProduct(S.r, d, Dense(iS), d, IdD(d), CTol)
Equivalent(r1, r2, S, iS) == r1.d = r2.d /\ InverseM(S, iS, r1.d) /\ TwinesRep(S, r1, r2)

(* irreducible content: the natural representation of S_n is trivial + standard *)
SplitSN(c) == FoldLeft(LAMBDA acc, e : acc \o
     (IF e[1][1] # "SN" THEN << e >>
      ELSE IF e[1][2] = "nat" THEN << << << "SN", "triv", e[1][3] >>, e[2] >>, << << "SN", IF e[1][3] = 2 THEN "sign" ELSE "std", e[1][3] >>, e[2] >> >>
      ELSE IF e[1][2] = "std" /\ e[1][3] = 2 THEN << << << "SN", "sign", 2 >>, e[2] >> >>
      ELSE << e >>), << >>, c)
=============================================================================
