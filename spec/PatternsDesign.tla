----------------------------- MODULE PatternsDesign -----------------------------
(* Design model of the Gelfand-Tsetlin basis: a walker on the patterns of one *)
(* highest weight, moved by the ladder operators where their coefficient is   *)
(* not zero.  Reachability, and the su(2) relations in exact rationals.       *)
EXTENDS Patterns, Groups
CONSTANTS Big
Tops == { << 2, 0 >>, << 3, 0 >>, << 1, 0, 0 >>, << 2, 1, 0 >>, << 3, 1, 0 >>, << 2, 2, 0 >>, << 4, 2, 0 >>,
          << 1, 1, 0, 0 >>, << 2, 1, 0, 0 >>, << 2, 1, 1, 0 >>, << 2, 2, 1, 0 >> }
        \cup (IF Big THEN { << 8, 0 >>, << 5, 3, 0 >>, << 6, 2, 0 >>, << 3, 2, 1, 0 >>, << 4, 2, 1, 0 >>, << 1, 1, 0, 0, 0 >>, << 2, 1, 0, 0, 0 >>, << 2, 1, 1, 1, 0 >> } ELSE {})
VARIABLES S, M
vars == << S, M >>
TopPattern(T) == [i \in 1..Len(T) |-> SubSeq(T, 1, Len(T) - i + 1)]
Init == S \in Tops /\ M = TopPattern(S)
Lower(l, k) == Bump(M, l + 1, k, -1)
Next == \E l \in 1..(Len(S) - 1) : \E k \in 1..(Len(S) - l) :
          /\ Num2(M, l + 1, k) # 0
          /\ M' = Lower(l, k)
          /\ UNCHANGED S
Spec == Init /\ [][Next]_vars

Inside == Interleaves(M) /\ M[1] = S
(* a coefficient is zero exactly when the target leaves the set of patterns *)
Coefficients == \A l \in 1..(Len(S) - 1) : \A k \in 1..(Len(S) - l) :
   LET nu == Num2(M, l + 1, k)  de == Den2(M, l + 1, k) IN
   IF Interleaves(Lower(l, k)) THEN de # 0 /\ nu # 0 /\ (nu > 0) = (de > 0)
   ELSE nu = 0
(* [J+, J-] = 2 J0 on the diagonal: sum of squares going down minus those coming from above *)
Sq(l, k) == << Num2(M, l + 1, k), Den2(M, l + 1, k) >>
UpM(l, k) == Bump(M, l + 1, k, 1)
SqUp(l, k) == << Num2(UpM(l, k), l + 1, k), Den2(UpM(l, k), l + 1, k) >>
AddQ(a, b) == IF b[1] = 0 THEN a ELSE LET nn == a[1] * b[2] + b[1] * a[2]  dd == a[2] * b[2]
                  RECURSIVE G(_, _) G(x, y) == IF y = 0 THEN AbsI(x) ELSE G(AbsI(y), AbsI(x) % AbsI(y))
                  h == IF nn = 0 THEN AbsI(dd) ELSE G(nn, dd) IN << nn \div h, dd \div h >>
NegQ(a) == << -a[1], a[2] >>
Diagonal == \A l \in 1..(Len(S) - 1) :
   LET down == FoldLeft(LAMBDA s, k : IF Interleaves(Lower(l, k)) THEN AddQ(s, Sq(l, k)) ELSE s, << 0, 1 >>, Idx(Len(S) - l))
       both == FoldLeft(LAMBDA s, k : IF Interleaves(UpM(l, k)) THEN AddQ(s, NegQ(SqUp(l, k))) ELSE s, down, Idx(Len(S) - l))
       w == TwiceZ(M)[l]
   IN both[1] = w * both[2]
WeightOk == SumSeq(PWeight(M)) = SumSeq(S)
(* every pattern is reached from the highest one: states = sum of dimensions, checked with the counter below *)
CountOk == \A T \in Tops : Cardinality(Patterns(T)) = WeylSU(T) /\ Cardinality(Patterns(T)) = BagSize(GTBag(T))
Reached == TLCGet("distinct") = SumFcn([T \in Tops |-> WeylSU(T)]) /\ CountOk
=============================================================================
