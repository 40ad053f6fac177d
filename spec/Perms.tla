--------------------------------- MODULE Perms ---------------------------------
(* The symmetric group on {0, .., n-1}: permutations are sequences of images. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

(* sum of the values of a function (FoldSet is not safe on unions of products) *)
SumOf(f) == LET ks == SetToSeq(DOMAIN f) IN FoldLeft(LAMBDA a, x : a + x, 0, [i \in 1..Len(ks) |-> f[ks[i]]])
IsPerm(p) == { p[i] : i \in 1..Len(p) } = 0..(Len(p) - 1)
IdP(n) == [i \in 1..n |-> i - 1]
(* (p o q)(i) = p(q(i)) *)
ComposeP(p, q) == [i \in 1..Len(p) |-> p[q[i] + 1]]
InverseP(p) == [i \in 1..Len(p) |-> (CHOOSE j \in 1..Len(p) : p[j] = i - 1) - 1]
Inversions(p) == Cardinality({ ij \in (1..Len(p)) \X (1..Len(p)) : ij[1] < ij[2] /\ p[ij[1]] > p[ij[2]] })
SignP(p) == IF (Inversions(p) % 2) = 0 THEN 1 ELSE -1
PermsOf(n) == { [i \in 1..n |-> f[i] - 1] : f \in Permutations(1..n) }
RECURSIVE FactP(_)
FactP(n) == IF n = 0 THEN 1 ELSE n * FactP(n - 1)

IsGroupP(G) ==
  /\ G # {}
  /\ \E n \in 0..8 : \A p \in G : Len(p) = n /\ IsPerm(p)
  /\ \A p \in G : InverseP(p) \in G
  /\ \A p, q \in G : ComposeP(p, q) \in G

(* the generated group: words in the generators, breadth first *)
RECURSIVE Grow(_, _, _)
Grow(G, new, gens) ==
  LET more == { ComposeP(p, q) : p \in new, q \in gens } \ G
  IN IF more = {} THEN G ELSE Grow(G \cup more, more, gens)
Generated(S) == LET n == Len(CHOOSE p \in S : TRUE)  e == IdP(n) IN Grow({e}, {e}, S)   \* finite order: no inverses needed

(* cycles of length >= 2, starting with their least element *)
RECURSIVE CycleFrom(_, _, _)
CycleFrom(p, start, acc) == LET nxt == p[acc[Len(acc)] + 1] IN IF nxt = start THEN acc ELSE CycleFrom(p, start, Append(acc, nxt))
Cycles(p) == { c \in { CycleFrom(p, i - 1, << i - 1 >>) : i \in 1..Len(p) } : Len(c) >= 2 /\ \A j \in 2..Len(c) : c[1] < c[j] }
=============================================================================
