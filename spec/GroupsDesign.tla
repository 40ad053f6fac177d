------------------------------ MODULE GroupsDesign ------------------------------
(* Design model of the label algebra (Groups, Hom).  A state is a product of  *)
(* irreps of one group, with its content; a step tensors with one more irrep. *)
(* TLC visits every product of up to MaxLen irreps of the boxes below and     *)
(* checks that the content computed by peeling highest weights obeys the laws *)
(* of the representation ring.                                                *)
EXTENDS Hom
CONSTANTS Big, MaxLen

VARIABLES g, fac, con
vars == << g, fac, con >>

SunBox(n, m) == { l \in { << "SUN", s >> : s \in [1..n -> 0..m] } : Valid(l) }
Box(h) ==
  CASE h[1] \in {"SU2", "SO3"} -> { << h[1], j >> : j \in 0..(IF Big THEN 5 ELSE 4) }
    [] h[1] = "O3" -> { << "O3", l, p >> : l \in 0..2, p \in {-1, 1} }
    [] h[1] = "SL2C" -> { << "SL2C", a, b >> : a \in 0..2, b \in 0..2 }
    [] h[1] = "SO13" -> { x \in { << "SO13", a, b >> : a \in 0..3, b \in 0..3 } : Valid(x) }
    [] h[1] = "Z2" -> { << "Z2", 1 >>, << "Z2", -1 >> }
    [] h[1] = "SUN" -> SunBox(h[2], IF h[2] = 3 THEN (IF Big THEN 3 ELSE 2) ELSE IF h[2] = 2 THEN 3 ELSE (IF Big THEN 2 ELSE 1))
    [] h[1] = "PROD" -> IF h[2][1] = "O3" THEN { << "PROD", << "O3", l, p >>, << "SU2", j >> >> : l \in 0..1, p \in {-1, 1}, j \in 0..1 }
                        ELSE { << "PROD", << "SUN", s >>, << "Z2", p >> >> : s \in { << 0, 0, 0 >>, << 1, 0, 0 >>, << 1, 1, 0 >> }, p \in {-1, 1} }
GroupSet == { << "SU2" >>, << "SO3" >>, << "O3" >>, << "SL2C" >>, << "SO13" >>, << "Z2" >>, << "SUN", 2 >>, << "SUN", 3 >>, << "SUN", 4 >>,
              << "PROD", << "O3" >>, << "SU2" >> >>, << "PROD", << "SUN", 3 >>, << "Z2" >> >> }

PairsOf(c) == LET D == SetToSeq(DOMAIN c) IN [k \in 1..Len(D) |-> << D[k], c[D[k]] >>]
Bag(c) == SumBag(PairsOf(c))
Init == g \in GroupSet /\ fac = << >> /\ con = (TrivialOf(g) :> 1)
Next == /\ Len(fac) < MaxLen
        /\ \E l \in Box(g) :
             /\ Len(fac) < 2 \/ Dim(l) <= 4
             /\ fac' = Append(fac, l)
             /\ con' = ContentOfSeq(Decompose(g, BagMul(g, Bag(con), Weights(l))))
        /\ UNCHANGED g
Spec == Init /\ [][Next]_vars

ASSUME FinLaws

(* the labels of the groups without a table in the library: a small set, and  *)
(* a set that holds all irreps in the products of two of them                 *)
Kinds3 == {"triv", "sign", "std"}
ExtSmall(h) ==
  CASE h = "U1" -> { << "U1", q >> : q \in -2..2 }
    [] h = "AB" -> { << "AB", << q, r >>, << x >> >> : q \in {-1, 0, 1}, r \in {0, 1}, x \in {-1, 1} }
    [] h = "O2" -> { << "O2", 0, 1 >>, << "O2", 0, -1 >> } \cup { << "O2", l, 1 >> : l \in 1..2 }
    [] h = "MIX" -> { << "MIX", j, k >> : j \in 0..2, k \in Kinds3 }
    [] h = "LF1" -> { << "LF", << "SU2", j >>, << "Q8", i >> >> : j \in 0..1, i \in {1, 2, 5} }
    [] h = "LF2" -> { << "LF", << "SUN", u >>, << "C4", i >> >> : u \in { << 0, 0, 0 >>, << 1, 0, 0 >>, << 1, 1, 0 >> }, i \in {1, 2} }
ExtAll(h) ==
  CASE h = "U1" -> { << "U1", q >> : q \in -4..4 }
    [] h = "AB" -> { << "AB", << q, r >>, << x >> >> : q \in -2..2, r \in 0..2, x \in {-1, 1} }
    [] h = "O2" -> { << "O2", 0, 1 >>, << "O2", 0, -1 >> } \cup { << "O2", l, 1 >> : l \in 1..4 }
    [] h = "MIX" -> { << "MIX", j, k >> : j \in 0..4, k \in Kinds3 }
    [] h = "LF1" -> { << "LF", << "SU2", j >>, << "Q8", i >> >> : j \in 0..2, i \in 1..5 }
    [] h = "LF2" -> { << "LF", << "SUN", u >>, << "C4", i >> >> :
                        u \in { << 0, 0, 0 >>, << 1, 0, 0 >>, << 1, 1, 0 >>, << 2, 0, 0 >>, << 2, 2, 0 >>, << 2, 1, 0 >> }, i \in 1..4 }
ExtTriv(h) ==
  CASE h = "U1" -> << "U1", 0 >> [] h = "AB" -> << "AB", << 0, 0 >>, << 1 >> >> [] h = "O2" -> << "O2", 0, 1 >>
    [] h = "MIX" -> << "MIX", 0, "triv" >> [] h = "LF1" -> << "LF", << "SU2", 0 >>, << "Q8", 1 >> >>
    [] h = "LF2" -> << "LF", << "SUN", << 0, 0, 0 >> >>, << "C4", 1 >> >>
ExtDim(l) == CASE l[1] \in {"U1", "AB"} -> 1 [] l[1] = "O2" -> IF l[2] = 0 THEN 1 ELSE 2
               [] l[1] = "MIX" -> (l[2] + 1) * (IF l[3] = "std" THEN 2 ELSE 1)
               [] l[1] = "LF" -> Dim(l[2]) * FinDim(l[3][1], l[3][2])
(* they are the structure constants of a representation ring: unit, order,    *)
(* dimensions, reciprocity, duals and reality                                 *)
ExtLaws ==
  \A h \in {"U1", "AB", "O2"} \cup (IF Big THEN {"MIX", "LF1", "LF2"} ELSE {}) :
    LET S == ExtSmall(h)  C == ExtAll(h)  t == ExtTriv(h) IN
    /\ S \subseteq C /\ t \in S
    /\ \A a \in C : \A b \in C : ExtMult(a, t, b) = B01(a = b) /\ ExtMult(t, a, b) = B01(a = b)
    /\ \A a \in S : /\ ConjExt(ConjExt(a)) = a
                    /\ RealityExt(a) \in {-1, 0, 1}
                    /\ (RealityExt(a) # 0) = (ConjExt(a) = a)
                    /\ ExtMult(a, ConjExt(a), t) = 1
    /\ \A a \in S : \A b \in S :
         /\ SumFcn([c \in C |-> ExtMult(a, b, c) * ExtDim(c)]) = ExtDim(a) * ExtDim(b)
         /\ \A c \in C : LET m == ExtMult(a, b, c) IN
              /\ m = ExtMult(b, a, c)
              /\ m = ExtMult(ConjExt(a), ConjExt(b), ConjExt(c))
              /\ m = ExtMult(c, ConjExt(b), a)
    \* two orders of three factors
    /\ \A a \in S : \A b \in S : \A c \in S : \A d \in (IF h \in {"U1", "O2"} THEN S ELSE {t, a}) :
         SumFcn([x \in C |-> ExtMult(a, b, x) * ExtMult(x, c, d)]) = SumFcn([x \in C |-> ExtMult(b, c, x) * ExtMult(a, x, d)])
ASSUME ExtLaws

(* the dual representation has the negative weights *)
RECURSIVE WNeg(_, _)
WNeg(h, w) == IF h[1] = "PROD" THEN << WNeg(h[2], w[1]), WNeg(h[3], w[2]) >>
              ELSE IF h[1] = "O3" THEN << -w[1], w[2] >> ELSE IF h[1] = "Z2" THEN w ELSE [i \in 1..Len(w) |-> -w[i]]
NegBag(h, B) == [w \in { WNeg(h, v) : v \in DOMAIN B } |-> B[WNeg(h, w)]]
Dual(l) == IF l[1] \in {"SL2C", "SO13"} THEN l ELSE ConjLabel(l)

TypeOk == \A x \in DOMAIN con : Valid(x) /\ GroupOf(x) = g /\ con[x] > 0
Dimension == SumFcn([x \in DOMAIN con |-> con[x] * Dim(x)]) = FoldLeft(LAMBDA s, l : s * Dim(l), 1, fac)
(* the order in which the irreps are multiplied does not matter *)
Confluent ==
  LET rev == [i \in 1..Len(fac) |-> fac[Len(fac) + 1 - i]]
      B == FoldLeft(LAMBDA b, l : BagMul(g, Weights(l), b), Weights(TrivialOf(g)), rev)
  IN ContentEq(con, ContentOfSeq(Decompose(g, B)))
(* one irrep: dimension formula, duality, reality *)
RECURSIVE Closed(_)
Closed(l) == CASE l[1] \in {"SU2"} -> l[2] + 1 [] l[1] \in {"SO3", "O3"} -> 2 * l[2] + 1
               [] l[1] \in {"SL2C", "SO13"} -> (l[2] + 1) * (l[3] + 1) [] l[1] = "Z2" -> 1
               [] l[1] = "SUN" -> WeylSU(l[2]) [] l[1] = "PROD" -> Closed(l[2]) * Closed(l[3])
TwiceW(h, w) == WAdd(h, w, w)
(* characters of the symmetric and the alternating square *)
SymSq(h, B) ==
  LET W == DOMAIN BagMul(h, B, B)
      D == { TwiceW(h, v) : v \in DOMAIN B }
      Psi(w) == SumFcn([v \in DOMAIN B |-> IF TwiceW(h, v) = w THEN B[v] ELSE 0])
      P == BagMul(h, B, B)
  IN [w \in W |-> (P[w] + (IF w \in D THEN Psi(w) ELSE 0)) \div 2]
NoDisc(h) == h[1] \in {"SU2", "SO3", "SUN"}
Single ==
  Len(fac) = 1 =>
    LET l == fac[1] IN
    /\ Dim(l) = Closed(l)
    /\ con = (l :> 1)
    /\ ConjLabel(ConjLabel(l)) = l /\ Valid(ConjLabel(l))
    /\ (g[1] # "SO13" => BagEq(Weights(Dual(l)), NegBag(g, Weights(l))))
    /\ (NoDisc(g) =>
          LET sq == ContentOfSeq(Decompose(g, SymSq(g, Weights(l))))
              all == ContentOfSeq(Decompose(g, BagMul(g, Weights(l), Weights(l))))
              t == TrivialOf(g)
              s == IF t \in DOMAIN sq THEN sq[t] ELSE 0
              a == (IF t \in DOMAIN all THEN all[t] ELSE 0) - s
          IN Reality(l) = s - a)
(* Frobenius reciprocity, and that multiplicities count equivariant maps *)
Pair ==
  Len(fac) = 2 =>
    /\ \A x \in Box(g) :
         LET m == IF x \in DOMAIN con THEN con[x] ELSE 0
             B == BagMul(g, Bag(con), Weights(Dual(x)))
             c == ContentOfSeq(Decompose(g, B))
         IN /\ m = (IF TrivialOf(g) \in DOMAIN c THEN c[TrivialOf(g)] ELSE 0)
            /\ m = Hom3(<< << fac[1], 1 >> >>, << << fac[2], 1 >> >>, << << x, 1 >> >>)
    \* textbook selection rules
    /\ (g[1] = "SU2" => con = [x \in { << "SU2", j >> : j \in { j \in 0..20 : j >= AbsI(fac[1][2] - fac[2][2]) /\ j <= fac[1][2] + fac[2][2] /\ ((j + fac[1][2] + fac[2][2]) % 2) = 0 } } |-> 1])
    /\ (g[1] = "SUN" /\ SumSeq(fac[2][2]) = 1 =>        \* Pieri: add one box
          LET n == g[2]  S == fac[1][2]
              add == { i \in 1..n : i = 1 \/ S[i - 1] > S[i] }
              Nrm(T) == [k \in 1..n |-> T[k] - T[n]]
          IN con = [x \in { << "SUN", Nrm([S EXCEPT ![i] = @ + 1]) >> : i \in add } |-> 1])
=============================================================================
