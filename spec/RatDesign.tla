------------------------------- MODULE RatDesign -------------------------------
(* Design model of bounded approximation: the walk down the Stern-Brocot tree *)
(* towards n/d, stopped where the next mediant has a denominator above the    *)
(* bound.                                                                     *)
(*   Farey   the ends of the interval are neighbours around n/d               *)
(*   Best_   at the stop the nearer end (both, in a tie; n/d itself when it   *)
(*           qualifies) is accepted by the enumerating clause and by the      *)
(*           certificate, and every other admissible fraction is rejected by  *)
(*           both, whatever certificate it carries                            *)
(*   Big     BigNum computes with multi-limb numbers what it should           *)
EXTENDS Rationals
CONSTANTS MaxD, MaxBound
VARIABLES n, d, m, lo, hi
vars == << n, d, m, lo, hi >>

Init == /\ d \in 1..MaxD /\ n \in -MaxD..(2 * MaxD) /\ m \in 1..MaxBound
        /\ Gcd(AbsI(n), d) = 1
        /\ lo = << n \div d, 1 >> /\ hi = << (n \div d) + 1, 1 >>
Med == << lo[1] + hi[1], lo[2] + hi[2] >>
(* -1, 0, 1 as x is below, equal to, above the fraction f *)
Side(f) == LET v == n * f[2] - f[1] * d IN IF v < 0 THEN -1 ELSE IF v = 0 THEN 0 ELSE 1
Exact == Side(lo) = 0 \/ Side(hi) = 0
Stopped == Exact \/ Med[2] > m
Next == /\ ~Stopped
        /\ IF Side(Med) <= 0 THEN hi' = Med /\ lo' = lo ELSE lo' = Med /\ hi' = hi
        /\ UNCHANGED << n, d, m >>
Spec == Init /\ [][Next]_vars

Farey == /\ hi[1] * lo[2] - lo[1] * hi[2] = 1
         /\ Side(lo) >= 0 /\ Side(hi) <= 0 /\ lo[2] <= m /\ hi[2] <= m
Far(f) == AbsI(n * f[2] - f[1] * d)       \* |x - f| d f[2]
Nearer(f, h) == Far(f) * h[2] <= Far(h) * f[2]
Winners == IF Side(lo) = 0 THEN { lo } ELSE IF Side(hi) = 0 THEN { hi }
           ELSE { f \in { lo, hi } : Nearer(f, lo) /\ Nearer(f, hi) }
Cands == { f \in ((n \div d) - 1..(n \div d) + 2) \X { 1 } : TRUE }
         \cup UNION { { << p, q >> : p \in (((n * q) \div d) - 2)..(((n * q) \div d) + 2) } : q \in 1..(m + 1) }
CertBy(f, h) == Cert(BInt(n), BInt(d), BInt(f[1]), BInt(f[2]), BInt(h[1]), BInt(h[2]), BInt(m))
Best_ == Stopped =>
  /\ \A f \in Winners : Best(n, d, f[1], f[2], m) = {} /\ \E h \in { lo, hi } : CertBy(f, h)
  /\ \A f \in Cands \ Winners : /\ Best(n, d, f[1], f[2], m) # {}
                               /\ (Gcd(AbsI(f[1]), f[2]) = 1 /\ f[2] <= m) => \A h \in Cands : h[2] <= m => ~CertBy(f, h)
  /\ (d <= m) => Winners = { << n, d >> }
K == 40961
Big ==
  LET X(a) == BMul(BInt(a), BMul(BInt(K), BInt(K))) IN
  /\ BOk(X(n)) /\ BEq(BAdd(X(n), X(d)), X(n + d)) /\ BEq(BSub(X(n), X(m)), X(n - m))
  /\ BEq(BMul(BInt(n), X(d)), X(n * d)) /\ BCmp(X(n), X(lo[1])) = (IF n < lo[1] THEN -1 ELSE IF n = lo[1] THEN 0 ELSE 1)
  /\ BSign(X(n)) = (IF n < 0 THEN -1 ELSE IF n = 0 THEN 0 ELSE 1)
  /\ BEq(BMul(BPow2(m), BPow2(d)), BPow2(m + d)) /\ BEq(BPow2(m), BInt(2 ^ m))
=============================================================================
