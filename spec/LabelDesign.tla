------------------------------ MODULE LabelDesign ------------------------------
(* Design model of the enumeration of labels: a correct enumerator of one     *)
(* group is run to the end of the box that has to be reached.                 *)
(*   Admits   Labels accepts every step of it                                 *)
(*   Sharp    and rejects repeated, foreign, invalid, mis-dimensioned and     *)
(*            non-increasing steps                                            *)
(*   Ends     stopping is accepted exactly when the box was reached           *)
(*   Ordered  the order matrices of the model are accepted, and no matrix     *)
(*            with one entry of "less" or "equal" flipped                     *)
(*   Readable terms of a group are written differently                        *)
EXTENDS Labels, SequencesExt
CONSTANTS Window
VARIABLES g, q
vars == << g, q >>

Gs == { << "SU2" >>, << "SO3" >>, << "SU2Real" >>, << "O3" >>, << "SL2C" >>, << "SO13" >>, << "Z2" >>, << "SUN", 2 >>, << "SUN", 3 >>, << "SUN", 4 >> }
Key(l) == CASE l[1] = "O3" -> << l[2], -l[3] >>
            [] l[1] = "Z2" -> << -l[2] >>
            [] l[1] \in {"SL2C", "SO13"} -> << l[2] + l[3], l[2] >>
            [] l[1] = "SUN" -> << SumSeq(l[2]) >> \o l[2]
            [] OTHER -> << l[2] >>
LexLt(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..i - 1 : a[j] = b[j]
Lt(a, b) == LexLt(Key(a), Key(b))
Ord(h) == SetToSortSeq(Box(h), Lt)

Init == g \in Gs /\ q = << >>
Next == Len(q) < Cardinality(Box(g)) /\ q' = Append(q, Ord(g)[Len(q) + 1]) /\ UNCHANGED g
Spec == Init /\ [][Next]_vars

Ev(l) == [it |-> "a", g |-> g, label |-> l, up |-> TRUE, down |-> FALSE, dim |-> Dim(l)]
Mem(n) == ("a" :> SubSeq(q, 1, n)) @@ ("b" :> << TrivialOf(g) >>)
Cur == q[Len(q)]
Before == Mem(Len(q) - 1)
Admits == q = << >> \/ LET r == Next1(Ev(Cur), Before) IN r.bad = {} /\ r.st = Mem(Len(q)) /\ Valid(Cur) /\ GroupOf(Cur) = g
Sharp == q = << >> \/
  /\ \A i \in 1..Len(q) - 1 : Next1(Ev(q[i]), Before).bad # {}
  /\ Next1([Ev(Cur) EXCEPT !.dim = @ + 1], Before).bad # {}
  /\ \A h \in Gs \ { g } : Next1([Ev(Cur) EXCEPT !.label = TrivialOf(h)], Before).bad # {}
  /\ Len(q) = 1 \/ Next1([Ev(Cur) EXCEPT !.up = FALSE], Before).bad # {}
  /\ Len(q) = 1 \/ Next1([Ev(Cur) EXCEPT !.down = TRUE], Before).bad # {}
  /\ Cur = TrivialOf(g) \/ Next1(Ev(Cur), Mem(0)).bad # {}
  /\ g[1] # "SUN" \/ Next1([Ev(Cur) EXCEPT !.label = << "SUN", [Cur[2] EXCEPT ![Len(Cur[2])] = 1] >>], Before).bad # {}
Stop(ended) == Done([it |-> "a", g |-> g, ended |-> ended], Mem(Len(q))).bad
Ends == /\ (Stop(FALSE) = {}) = (Len(q) = Cardinality(Box(g)))
        /\ (Stop(TRUE) = {}) = (Len(q) = Cardinality(Box(g)) /\ Finite(g))

(* the last labels in a scrambled sequence with a repetition *)
W == LET n == IF Window < Len(q) THEN Window ELSE Len(q) IN [i \in 1..n |-> q[Len(q) - ((2 * i) % n)]]
OrdEv(L) ==
  LET I == 1..Len(L)
      m(P(_, _)) == [i \in I |-> [j \in I |-> P(L[i], L[j])]]
  IN [labels |-> L, lt |-> m(LAMBDA a, b : Lt(a, b)), eq |-> m(LAMBDA a, b : a = b), ne |-> m(LAMBDA a, b : a # b),
      gt |-> m(LAMBDA a, b : Lt(b, a)), hash |-> m(LAMBDA a, b : a = b), nset |-> Cardinality({ L[i] : i \in I }),
      sorted |-> SortSeq(L, Lt)]
Ordered == q = << >> \/
  LET L == W  e == OrdEv(L)  I == 1..Len(L) IN
  /\ Order(e) = {}
  /\ \A i, j \in I : /\ Order([e EXCEPT !.lt[i][j] = ~@]) # {}
                      /\ Order([e EXCEPT !.eq[i][j] = ~@]) # {}
                      /\ Order([e EXCEPT !.gt[i][j] = ~@]) # {}
                      /\ L[i] = L[j] => Order([e EXCEPT !.hash[i][j] = FALSE]) # {}
  /\ Order([e EXCEPT !.nset = @ + 1]) # {}
  /\ \A i \in 1..Len(L) - 1 : e.sorted[i] = e.sorted[i + 1] \/ Order([e EXCEPT !.sorted = [e.sorted EXCEPT ![i] = e.sorted[i + 1], ![i + 1] = e.sorted[i]]]) # {}
Texts(l) == { RenderTerm(<< l, 1, FALSE >>) } \cup { RenderTerm(<< l, m, TRUE >>) : m \in {0, 1, 2, 11} }
Readable == q = << >> \/ g[1] = "SU2Real" \/
  /\ Cardinality(Texts(Cur)) = 5
  /\ \A i \in 1..Len(q) - 1 : Texts(q[i]) \cap Texts(Cur) = {}
=============================================================================
