-------------------------------- MODULE Labels --------------------------------
(* Enumeration, order, textual forms and values of irrep labels: what each    *)
(* observation may be (C06, C29).                                             *)
EXTENDS Groups, Clauses

(* labels that have to be reached, after a generous number of steps *)
Box(g) ==
  CASE g[1] = "SU2" -> { << "SU2", j >> : j \in 0..20 }
    [] g[1] = "SO3" -> { << "SO3", j >> : j \in 0..20 }
    [] g[1] = "SU2Real" -> { << "SU2Real", j >> : j \in 0..20 }
    [] g[1] = "O3" -> { << "O3", l, p >> : l \in 0..9, p \in {-1, 1} }
    [] g[1] = "SL2C" -> { x \in { << "SL2C", a, b >> : a \in 0..6, b \in 0..6 } : x[2] + x[3] <= 6 }
    [] g[1] = "SO13" -> { x \in { << "SO13", a, b >> : a \in 0..8, b \in 0..8 } : x[2] + x[3] <= 8 /\ ((x[2] + x[3]) % 2) = 0 }
    [] g[1] = "Z2" -> { << "Z2", 1 >>, << "Z2", -1 >> }
    [] g[1] = "SUN" -> CASE g[2] = 2 -> { << "SUN", << a, 0 >> >> : a \in 0..20 }
                         [] g[2] = 3 -> { x \in { << "SUN", << a, b, 0 >> >> : a \in 0..6, b \in 0..6 } : Valid(x) }
                         [] g[2] = 4 -> { x \in { << "SUN", << a, b, c, 0 >> >> : a \in 0..4, b \in 0..4, c \in 0..4 } : Valid(x) }
Finite(g) == g[1] = "Z2"

Fresh == [x \in {} |-> << >>]
Seen(s, it) == IF it \in DOMAIN s THEN s[it] ELSE << >>

Next1(e, s) ==
  LET q == Seen(s, e.it)
      g == e.g
  IN [st |-> (e.it :> Append(q, e.label)) @@ s,
      bad |-> IF e.label[1] = "?" \/ ~Valid(e.label) THEN {"label"} ELSE
              IF GroupOf(e.label) # g THEN {"group"} ELSE
              Must(Len(q) > 0 \/ e.label = TrivialOf(g), "first-trivial")
              \cup Must(\A i \in 1..Len(q) : q[i] # e.label, "repeated")
              \cup Must(Len(q) = 0 \/ (e.up /\ ~e.down), "increasing")
              \cup Must(e.dim = Dim(e.label), "dimension")]
Done(e, s) ==
  LET q == Seen(s, e.it) IN
  [st |-> s,
   bad |-> Must(e.ended => Finite(e.g), "ended")
           \cup Must(\A x \in Box(e.g) : \E i \in 1..Len(q) : q[i] = x, "reaches")]

-----------------------------------------------------------------------------
(* e.labels, matrices e.lt, e.eq, e.ne, e.gt and hash values e.hash of fresh objects; e.sorted is the sorted list, e.nset the size of the set *)
Order(e) ==
  LET L == e.labels
      n == Len(L)
      I == 1..n
      same(i, j) == L[i] = L[j]
  IN Must(\A i, j \in I : e.eq[i][j] = same(i, j), "equality")
     \cup Must(\A i, j \in I : e.ne[i][j] = ~same(i, j), "inequality")
     \cup Must(\A i, j \in I : same(i, j) => e.hash[i][j], "hash")
     \cup Must(\A i, j \in I : same(i, j) => ~e.lt[i][j], "irreflexive")
     \cup Must(\A i, j \in I : same(i, j) \/ (e.lt[i][j] # e.lt[j][i]), "total")
     \cup Must(\A i, j, k \in I : (e.lt[i][j] /\ e.lt[j][k]) => e.lt[i][k], "transitive")
     \cup Must(\A i, j \in I : e.gt[i][j] = e.lt[j][i], "greater")
     \cup Must(e.nset = Cardinality({ L[i] : i \in I }), "set")
     \cup Must(Len(e.sorted) = n /\ (\A i \in 1..n - 1 : e.sorted[i] = e.sorted[i + 1] \/
                  \E a, b \in I : L[a] = e.sorted[i] /\ L[b] = e.sorted[i + 1] /\ e.lt[a][b])
               /\ ContentEq(ContentOfSeq([i \in I |-> << L[i], 1 >>]), ContentOfSeq([i \in I |-> << e.sorted[i], 1 >>])), "sorted")
     \* products: lexicographic in the factors
     \cup (IF L[1][1] # "PROD" THEN {} ELSE
           Must(\A i, j \in I : e.lt[i][j] = (e.lt1[i][j] \/ (L[i][2] = L[j][2] /\ e.lt2[i][j])), "lexicographic"))

-----------------------------------------------------------------------------
(* textual forms *)
RECURSIVE Commas(_)
Commas(s) == IF Len(s) = 1 THEN ToString(s[1]) ELSE ToString(s[1]) \o "," \o Commas(SubSeq(s, 2, Len(s)))
Render(l) ==
  CASE l[1] \in {"SU2", "SO3"} -> ToString(l[2])
    [] l[1] = "O3" -> ToString(l[2]) \o (IF l[3] = 1 THEN "e" ELSE "o")
    [] l[1] = "Z2" -> IF l[2] = 1 THEN "e" ELSE "o"
    [] l[1] \in {"SL2C", "SO13"} -> "(" \o ToString(l[2]) \o "," \o ToString(l[3]) \o ")"
    [] l[1] = "SUN" -> "(" \o Commas(l[2]) \o ")"
(* a term: <<label, multiplicity, written explicitly>> *)
RenderTerm(t) == (IF t[3] THEN ToString(t[2]) \o "x" ELSE "") \o Render(t[1])
RECURSIVE RenderSum(_, _)
RenderSum(ts, sep) == IF Len(ts) = 1 THEN RenderTerm(ts[1]) ELSE RenderTerm(ts[1]) \o sep \o RenderSum(SubSeq(ts, 2, Len(ts)), sep)
Huge(l) == l[1] = "SUN" /\ Len(l[2]) >= 5 /\ l[2][1] > 4     \* Weyl's formula would overflow
Parse(e) ==
  LET ts == e.terms IN
  Must(e.text = RenderSum(ts, e.sep), "harness-text")
  \cup Must(Len(e.got) = Len(ts) /\ \A i \in 1..Len(ts) : e.got[i] = << ts[i][1], ts[i][2] >>, "parsed")
  \cup Must((\E i \in 1..Len(ts) : Huge(ts[i][1])) \/ e.dim = SumSeq([i \in 1..Len(ts) |-> ts[i][2] * ClosedDim(ts[i][1])]), "parsed-dim")
  \cup Must(\A i \in 1..Len(ts) : e.same[i], "parsed-equal")

(* irreps are values: every way of copying one gives an equal irrep with the same generators, and its fields cannot be changed *)
Value(e) ==
  LET C == { e.copies[i] : i \in DOMAIN e.copies } IN
  Must(\A c \in C : c.label = e.label /\ c.type, "copy-label")
  \cup Must(\A c \in C : c.eq /\ c.hash /\ c.in, "copy-equal")
  \cup Must(\A c \in C : c.dim = Dim(e.label) /\ c.X /\ c.H, "copy-generators")
  \cup Must(Len(e.sets) > 0 /\ \A i \in DOMAIN e.sets : e.sets[i].refused /\ e.sets[i].label = e.label, "immutable")

(* labels of the trivial irreps *)
Scal(e) ==
  LET l == e.label  t == TrivialOf(GroupOf(l)) IN
  \* a pseudo-scalar of O3 is documented to be a scalar
  Must(e.scalar = "none" \/ (e.scalar = "yes") = (IF l[1] = "O3" THEN l[2] = 0 ELSE l = t), "is-scalar")
  \cup Must(e.trivial = (l = t), "is-trivial")
  \cup Must(e.created = t, "create-trivial")
=============================================================================
