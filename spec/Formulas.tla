------------------------------ MODULE Formulas ------------------------------
(* Index permutation symmetries: the signed group that a formula generates    *)
(* and the space of tensors with that symmetry, as a multiset of weights.     *)
(* The weight basis of the space consists of the orbits of the group on       *)
(* weight tuples whose stabiliser has no sign.                                *)
EXTENDS Hom

Compose(p, q) == TLCEval([i \in 1..Len(p) |-> p[q[i]]])
RECURSIVE Close(_)
Close(G) ==
  LET H == G \cup { << a[1] * b[1], Compose(a[2], b[2]) >> : a \in G, b \in G } IN IF H = G THEN G ELSE Close(H)
SignedGroup(gens, n) == Close({ << 1, [i \in 1..n |-> i] >> } \cup { << gens[k][1], gens[k][2] >> : k \in 1..Len(gens) })
Move(x, p) == TLCEval([i \in 1..Len(x) |-> x[p[i]]])

(* weights of a content, one entry per basis vector *)
WeightSeq(c) ==
  LET B == SumBag(c)
      D == SetToSeq(DOMAIN B)
      F[i \in 0..Len(D)] == IF i = 0 THEN << >> ELSE F[i - 1] \o [k \in 1..B[D[i]] |-> D[i]]
  IN F[Len(D)]

RECURSIVE Tuples(_)
Tuples(ds) == IF Len(ds) = 0 THEN { << >> } ELSE { << i >> \o t : i \in 1..ds[1], t \in Tuples(SubSeq(ds, 2, Len(ds))) }

RECURSIVE AddAll(_, _)
AddAll(g, ws) == IF Len(ws) = 1 THEN ws[1] ELSE WAdd(g, ws[1], AddAll(g, SubSeq(ws, 2, Len(ws))))

(* bag of the space of symmetric tensors.  All indices of one orbit of the group carry the same content *)
SymBag(g, cs, G) ==
  LET n == Len(cs)
      W == TLCEval([i \in 1..n |-> WeightSeq(cs[i])])
      T == Tuples([i \in 1..n |-> Len(W[i])])
      Alive(x) == \A h \in G : h[1] = -1 => Move(x, h[2]) # x
      \* one representative per orbit
      Orbit(x) == { Move(x, h[2]) : h \in G }
      RECURSIVE Reps(_, _)
      Reps(S, acc) == IF S = {} THEN acc ELSE LET x == CHOOSE y \in S : TRUE IN Reps(S \ Orbit(x), IF Alive(x) THEN Append(acc, x) ELSE acc)
      R == Reps(T, << >>)
      ws == TLCEval([k \in 1..Len(R) |-> AddAll(g, [i \in 1..n |-> W[i][R[k][i]]])])
  IN FoldLeft(LAMBDA B, w : IF w \in DOMAIN B THEN [B EXCEPT ![w] = @ + 1] ELSE B @@ (w :> 1), NoWeights, ws)

-----------------------------------------------------------------------------
(* which formulas and assignments of representations are legal *)
(* formulas: terms are [s |-> sign, p |-> sequence of letters (numbers)] *)
LettersOf(p) == { p[k] : k \in 1..Len(p) }
NoRepeat(p) == Cardinality(LettersOf(p)) = Len(p)
IsPermOf(p, q) == NoRepeat(p) /\ LettersOf(p) = LettersOf(q)
GoodTerms(e) == LET f == e.terms[1] IN f.s = 1 /\ NoRepeat(f.p) /\ \A k \in 1..Len(e.terms) : IsPermOf(e.terms[k].p, f.p)
(* letters exchanged by some term, directly or through others *)
Step1(e, S) == S \cup { x \in LettersOf(e.terms[1].p) :
                  \E k \in 1..Len(e.terms) : \E q \in 1..Len(e.terms[k].p) :
                    \/ e.terms[1].p[q] \in S /\ x = e.terms[k].p[q]
                    \/ e.terms[k].p[q] \in S /\ x = e.terms[1].p[q] }
RECURSIVE Orbit(_, _)
Orbit(e, S) == LET T == Step1(e, S) IN IF T = S THEN S ELSE Orbit(e, T)
GivenLetters(e) == { e.given[k][1] : k \in 1..Len(e.given) }
RepOf(e, x) == LET k == CHOOSE k \in 1..Len(e.given) : e.given[k][1] = x IN e.given[k][2]
LegalFormula(e) ==
  /\ GoodTerms(e)
  /\ GivenLetters(e) \subseteq LettersOf(e.terms[1].p)
  /\ \A x \in LettersOf(e.terms[1].p) : Orbit(e, {x}) \cap GivenLetters(e) # {}
  /\ \A x, y \in GivenLetters(e) : y \in Orbit(e, {x}) => RepOf(e, x) = RepOf(e, y)
=============================================================================
