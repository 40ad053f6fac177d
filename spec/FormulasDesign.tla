----------------------------- MODULE FormulasDesign -----------------------------
(* Design model of index symmetries.  A state is a formula (a sequence of     *)
(* signed permutations of n indices); a step adds a term.                     *)
EXTENDS Formulas
CONSTANTS MaxN, MaxTerms
VARIABLES n, gens
vars == << n, gens >>
Ps(m) == { [i \in 1..m |-> f[i]] : f \in Permutations(1..m) }
Init == n \in 1..MaxN /\ gens = << >>
Next == Len(gens) < MaxTerms /\ \E p \in Ps(n), s \in {-1, 1} : gens' = Append(gens, << s, p >>) /\ UNCHANGED n
Spec == Init /\ [][Next]_vars

SG == SignedGroup(gens, n)
One == [i \in 1..n |-> i]
Contradictory == << -1, One >> \in SG
(* dimension of the space of symmetric tensors over a space of dimension d: average of sign * d^cycles *)
RECURSIVE PowD(_, _)
PowD(d, k) == IF k = 0 THEN 1 ELSE d * PowD(d, k - 1)
OrbitOf(p, i) == LET RECURSIVE O(_, _) O(S, j) == IF p[j] \in S THEN S ELSE O(S \cup { p[j] }, p[j]) IN O({i}, i)
CycleCount(p) == Cardinality({ OrbitOf(p, i) : i \in 1..n })
Trace(d) == SumFcn([h \in SG |-> h[1] * PowD(d, CycleCount(h[2]))])
DimOf(c) == BagSize(SymBag(GroupOf(c[1][1]), [i \in 1..n |-> c], SG))
(* representations put on the indices: all the same one *)
Cs == { << << << "SU2", 1 >>, 1 >> >>, << << << "SU2", 2 >>, 1 >> >>, << << << "SU2", 0 >>, 2 >>, << << "SU2", 1 >>, 1 >> >>,
        << << << "O3", 0, -1 >>, 1 >>, << << "O3", 1, 1 >>, 1 >> >>, << << << "Z2", -1 >>, 2 >> >>, << << << "SUN", << 1, 0, 0 >> >>, 1 >> >> }
CDim(c) == BagSize(SumBag(c))
GroupOk == /\ << 1, One >> \in SG
           /\ \A a, b \in SG : << a[1] * b[1], Compose(a[2], b[2]) >> \in SG
           /\ \A k \in 1..Len(gens) : gens[k] \in SG
Burnside == \A c \in Cs : PowD(CDim(c), n) <= 70 => Trace(CDim(c)) = Cardinality(SG) * DimOf(c)
Empty == Contradictory => \A c \in Cs : PowD(CDim(c), n) <= 70 => DimOf(c) = 0
Characters == \A c \in Cs : PowD(CDim(c), n) <= 70 =>
  LET g == GroupOf(c[1][1])  B == SymBag(g, [i \in 1..n |-> c], SG)
  IN DOMAIN B = {} \/ \A k \in 1..Len(Decompose(g, B)) : Decompose(g, B)[k][2] > 0
(* the textual form: term k names the indices permuted; exchanged indices are the orbits of the group *)
Formula == [terms |-> << [s |-> 1, p |-> One] >> \o [k \in 1..Len(gens) |-> [s |-> gens[k][1], p |-> gens[k][2]]]]
Orbits == \A i \in 1..n : Orbit(Formula, {i}) = { h[2][i] : h \in SG }
Legal == LegalFormula([terms |-> Formula.terms, given |-> [i \in 1..n |-> << i, 7 >>]])
=============================================================================
