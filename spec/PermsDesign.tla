------------------------------ MODULE PermsDesign ------------------------------
(* Design model of the permutation algebra: a set of permutations is closed   *)
(* one product at a time, in any order.  Every run ends in the same group.    *)
EXTENDS Perms
CONSTANTS MaxN, Each
VARIABLES n, gens, G
vars == << n, gens, G >>
Init == /\ n \in 1..MaxN
        /\ gens \in { S \in SUBSET PermsOf(n) : Cardinality(S) \in 1..2 }
        /\ G = gens
Grow1 == /\ n <= Each /\ \E p, q \in G : ComposeP(p, q) \notin G /\ G' = G \cup { ComposeP(p, q) }
GrowAll == /\ n > Each /\ LET H == G \cup { ComposeP(p, q) : p, q \in G } IN H # G /\ G' = H
Next == (Grow1 \/ GrowAll) /\ UNCHANGED << n, gens >>
Spec == Init /\ [][Next]_vars

Stuck == \A p, q \in G : ComposeP(p, q) \in G
TypeOk == \A p \in G : Len(p) = n /\ IsPerm(p)
Below == G \subseteq Generated(gens)
Ends == Stuck => (G = Generated(gens) /\ IsGroupP(G) /\ (FactP(n) % Cardinality(G)) = 0)
OnlyGroups == IsGroupP(G) <=> Stuck           \* finite and not empty: closure suffices
Laws == \A p, q \in gens :
  /\ ComposeP(p, InverseP(p)) = IdP(n) /\ ComposeP(InverseP(p), p) = IdP(n)
  /\ SignP(ComposeP(p, q)) = SignP(p) * SignP(q)
  /\ InverseP(ComposeP(p, q)) = ComposeP(InverseP(q), InverseP(p))
  /\ LET cs == Cycles(p)
         moved == UNION { { c[i] : i \in 1..Len(c) } : c \in cs }
     IN /\ moved = { p[i] : i \in { i \in 1..n : p[i] # i - 1 } }
        /\ SumOf([c \in cs |-> Len(c)]) = Cardinality(moved)
        /\ \A c \in cs : \A i \in 1..Len(c) : p[c[i] + 1] = c[(i % Len(c)) + 1]
        /\ SignP(p) = (IF (SumOf([c \in cs |-> Len(c) - 1]) % 2) = 0 THEN 1 ELSE -1)
=============================================================================
