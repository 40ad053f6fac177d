------------------------------ MODULE RootsDesign ------------------------------
(* Design model of the root systems: a walker on the roots, moved by the      *)
(* reflections in the simple roots; the Weyl group acts transitively on roots *)
(* of one length, and the sets of RootSystems are closed.                     *)
EXTENDS RootSystems
CONSTANTS MaxRank
VARIABLES f, r, v
vars == << f, r, v >>
n == Ambient(f, r)
P == PosRoots(f, r)
R == Roots(f, r)
S == SimpleOf(P, n)
Systems == { << x, k >> \in {"A", "B", "C", "D"} \X (2..MaxRank) : x # "D" \/ k >= 3 }
Init == \E s \in Systems : f = s[1] /\ r = s[2] /\ v \in SimpleOf(PosRoots(s[1], s[2]), Ambient(s[1], s[2]))
Coef(a, b) == (2 * Dot(a, b, n)) \div Dot(b, b, n)
Reflect(a, b) == LET c == Coef(a, b) IN Vec(n, LAMBDA i : a[i] - c * b[i])
Next == \E s \in S : v' = Reflect(v, s) /\ UNCHANGED << f, r >>
Spec == Init /\ [][Next]_vars
Closed == v \in R
Integral == \A s \in S : (2 * Dot(v, s, n)) % Dot(s, s, n) = 0
Halves == Cardinality(R) = 2 * Cardinality(P) /\ \A w \in R : (w \in P) # (NegV(w, n) \in P)
Simple == /\ Cardinality(S) = r
          \* a simple reflection permutes the other positive roots
          /\ \A s \in S : \A w \in P : w = s \/ Reflect(w, s) \in P
          /\ Cardinality(Highest(P, n)) = 1
Cartan == \E o \in [1..r -> S] : (\A i, j \in 1..r : o[i] = o[j] => i = j) /\ \A i, j \in 1..r : Coef(o[j], o[i]) = CartanOf(f, r, i, j)
Dims == LET d == 2 * Cardinality(P) + r IN
        d = (CASE f = "A" -> (r + 1) * (r + 1) - 1 [] f = "B" -> r * (2 * r + 1) [] f = "C" -> r * (2 * r + 1) [] f = "D" -> r * (2 * r - 1))
AllRoots == TLCGet("distinct") = SumOf([s \in Systems |-> Cardinality(Roots(s[1], s[2]))])
=============================================================================
