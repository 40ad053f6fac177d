------------------------------- MODULE ExpDesign -------------------------------
(* Design model of the exponential map.  A state is a walk on the integer     *)
(* exponents of two discrete generators, kept with the ordered product of     *)
(* their powers, and a dyadic parameter of a nilpotent one-parameter group,   *)
(* whose exponential is a polynomial and hence exact.                         *)
(*   Powers  the fast powers and the fixed point powers agree with the walk   *)
(*   Series  the Taylor series gives the polynomial, and the group law holds  *)
(*   Sharp   other orders, exponents and parameters are told apart            *)
EXTENDS Exponential
CONSTANTS MaxK, MaxT
VARIABLES pr, k, P, t
vars == << pr, k, P, t >>
G(x) == << x, 0 >>
GI(x) == << 0, x >>
Cyc == << << G(0), G(0), G(1) >>, << G(1), G(0), G(0) >>, << G(0), G(1), G(0) >> >>
Swp == << << G(0), GI(1), G(0) >>, << GI(-1), G(0), G(0) >>, << G(0), G(0), G(1) >> >>
Dia == << << GI(1), G(0), G(0) >>, << G(0), G(-1), G(0) >>, << G(0), G(0), G(1) >> >>
Pairs == << << Cyc, Swp >>, << Dia, Cyc >>, << Swp, Dia >> >>
H == Pairs[pr]
d == 3
Init == pr \in 1..Len(Pairs) /\ k = << 0, 0 >> /\ P = << GOne(d), GOne(d) >> /\ t = 0
Step1(q, s) == /\ AbsI(k[q] + s) <= MaxK /\ k' = [k EXCEPT ![q] = @ + s]
               /\ P' = [P EXCEPT ![q] = GMul(@, IF s = 1 THEN H[q] ELSE GAdj(H[q], d), d)] /\ UNCHANGED << pr, t >>
Next == \/ \E q \in 1..2, s \in {-1, 1} : Step1(q, s)
        \/ /\ k = << 0, 0 >> /\ t < MaxT /\ t' = t + 1 /\ UNCHANGED << pr, k, P >>
Spec == Init /\ [][Next]_vars

Fx(M) == TLCEval([i \in 1..d |-> TLCEval([j \in 1..d |-> << 512 * M[i][j][1], 0, 512 * M[i][j][2], 0 >>])])
Lg(D) == [n |-> d, m |-> d, ok |-> TRUE, r |-> SparseD(D, d, d)]
LH == [q \in 1..2 |-> Lg(Fx(H[q]))]
LI == [q \in 1..2 |-> Lg(Fx(GAdj(H[q], d)))]
PowOf(q, x) == IF x >= 0 THEN GPow(H[q], x, d) ELSE GPow(GAdj(H[q], d), -x, d)
Ordered == Fx(GMul(P[1], P[2], d))
Powers == /\ \A q \in 1..2 : PowOf(q, k[q]) = P[q]
          /\ InversesOk([rep |-> [H |-> LH, d |-> d], iH |-> LI])
          /\ DiscreteOf(LH, LI, k, d) = Ordered
          \* periods of the monomial matrices divide 12
          /\ \A q \in 1..2 : \A y \in {12, 1200, 536870904} : PowOf(q, AbsI(k[q]) + y) = PowOf(q, AbsI(k[q]))
(* N^3 = 0: exp(s N) = 1 + s N + s^2 N^2 / 2, s in units of 1/16 *)
N1 == << << 0, 1, 2 >>, << 0, 0, -1 >>, << 0, 0, 0 >> >>
NLog == Lg(Fx(TLCEval([i \in 1..3 |-> [j \in 1..3 |-> G(N1[i][j])]])))
E(s) == FR(d, LAMBDA i : FR(d, LAMBDA j :
          FromUnits((IF i = j THEN 1048576 ELSE 0) + 65536 * s * N1[i][j] + (IF i = 1 /\ j = 3 THEN 2048 * s * s * (-1) ELSE 0), 0)))
Tay(s) == Taylor(Comb(<< 64 * s >>, << NLog >>, d), d)
Series == \A s \in -t..t : /\ NearD(Tay(s), E(s), d, d, 1)
                          /\ \A u \in {-1, 1, 3} : ProductIs(Lg(E(s)), Lg(E(u)), Lg(E(s + u)), d, 1)
Sharp == /\ \A s \in -t..t : s = t \/ ~NearD(Tay(s), E(t), d, d, ETol)
         /\ \A s \in -t..t : ~ProductIs(Lg(E(s)), Lg(E(t)), Lg(E(s + t + 1)), d, ETol)
         /\ LET R == DiscreteOf(<< LH[2], LH[1] >>, << LI[2], LI[1] >>, << k[2], k[1] >>, d)
            IN GMul(P[1], P[2], d) = GMul(P[2], P[1], d) \/ ~NearD(R, Ordered, d, d, ETol)
=============================================================================
