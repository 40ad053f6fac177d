-------------------------------- MODULE CGTrace --------------------------------
(* C03, C04, C05 (and the coupling part of C14): products of irreps and their *)
(* Clebsch-Gordan coefficients.                                               *)
(*                                                                            *)
(* State machine: a "pair" event opens a product a (x) b and lists its irreps; *)
(* "cg" events give the solutions for one output irrep, which has to be one   *)
(* of the listed ones or not occur at all; a "sum" event closes the product   *)
(* when all listed irreps were seen.  mem = [pair, todo, rows].               *)
(* "gcg" events are couplings of arbitrary representations of known content.  *)
(*                                                                            *)
(* A solution C[z,i,j,k] is logged as the matrix W_z[k, (i,j)].               *)
EXTENDS TraceBase, Hom
Idle == [pair |-> 0, todo |-> {}, content |-> [x \in {} |-> 0], rows |-> << >>, ok |-> TRUE]

ComplexType(g) == CASE g[1] = "SU2Real" -> FALSE [] g[1] = "PROD" -> (g[2][1] # "SU2Real" /\ g[3][1] # "SU2Real") [] OTHER -> TRUE
RECURSIVE UnitaryTable(_)
UnitaryTable(g) == CASE g[1] \in {"SU2", "SO3", "O3", "SL2C", "SUN", "Z2"} -> TRUE
                     [] g[1] = "PROD" -> UnitaryTable(g[2]) /\ UnitaryTable(g[3])
                     [] OTHER -> FALSE

(* labels of the table for complex content labels *)
TableLabels(g, c) == IF g[1] = "SU2Real" THEN { << "SU2Real", x[2] >> : x \in DOMAIN c } ELSE DOMAIN c

HomBag(g, c, l) ==   \* solutions onto the irrep l, given the content of the product
  LET L == ContentOfSeq(Decompose(g, Weights(l)))
  IN SumFcn([x \in (DOMAIN c) \cap (DOMAIN L) |-> c[x] * L[x]])

-----------------------------------------------------------------------------
SparseCols(M) == LET D == Dense(M) IN FR(M.m, LAMBDA j : SparseRow([i \in 1..M.n |-> D[i][j]], M.n))

(* Y3 W = W (Y1 (x) 1 + 1 (x) Y2) *)
SumIntertwines(Y3, Y1, Y2, W, d1, d2, d3) ==
  LET c1 == SparseCols(Y1)  c2 == SparseCols(Y2)  w == Dense(W) IN
  \A i \in 1..d3 : \A j1 \in 1..d1 : \A j2 \in 1..d2 :
     LET j == (j1 - 1) * d2 + j2
         s0 == DotS(Y3.r[i], w, j)
         s1 == FoldLeft(LAMBDA s, e : MsubS(s, e, w[i][(e[1] - 1) * d2 + j2]), s0, c1[j1])
         s2 == FoldLeft(LAMBDA s, e : MsubS(s, e, w[i][(j1 - 1) * d2 + e[1]]), s1, c2[j2])
     IN SmallAcc(s2, CTol)

(* Y3 W = W (Y1 (x) Y2) *)
ProdIntertwines(Y3, Y1, Y2, W, d1, d2, d3) ==
  LET c1 == SparseCols(Y1)  c2 == SparseCols(Y2)  w == Dense(W)
      v == FR(d3, LAMBDA i : FR(d1 * d2, LAMBDA m :
             LET m1 == ((m - 1) \div d2) + 1  m2 == ((m - 1) % d2) + 1
             IN FromAcc(FoldLeft(LAMBDA s, e : MacS(s, e, w[i][(m1 - 1) * d2 + e[1]]), Acc0, c2[m2]))))
  IN \A i \in 1..d3 : \A j1 \in 1..d1 : \A j2 \in 1..d2 :
     LET j == (j1 - 1) * d2 + j2
         s0 == DotS(Y3.r[i], w, j)
         s1 == FoldLeft(LAMBDA s, e : MsubS(s, e, v[i][(e[1] - 1) * d2 + j2]), s0, c1[j1])
     IN SmallAcc(s1, CTol)

WShape(W, d1, d2, d3) == \A z \in 1..Len(W) : W[z].n = d3 /\ W[z].m = d1 * d2 /\ BoundedM(W[z])

Intertwines(r1, r2, r3, W) ==
  /\ r1.n = r3.n /\ r2.n = r3.n /\ r1.h = r3.h /\ r2.h = r3.h
  /\ \A z \in 1..Len(W) :
       /\ \A a \in 1..r3.n : SumIntertwines(r3.X[a], r1.X[a], r2.X[a], W[z], r1.d, r2.d, r3.d)
       /\ \A a \in 1..r3.h : ProdIntertwines(r3.H[a], r1.H[a], r2.H[a], W[z], r1.d, r2.d, r3.d)

(* all coefficients of the product are the rows of a unitary matrix *)
Unitary(rows, d) ==
  LET D == TLCEval([i \in 1..Len(rows) |-> DenseRow(rows[i], d)])
      Ip(a, b) == FoldLeft(LAMBDA t, e : MacS(t, e, ConjN(D[b][e[1]])), Acc0, rows[a])
  IN Len(rows) = d /\ \A a \in 1..d : \A b \in a..d :
       LET s == Ip(a, b) IN SmallI(UnitsRe(s) - (IF a = b THEN 1048576 ELSE 0), Tol) /\ SmallI(UnitsIm(s), Tol)

-----------------------------------------------------------------------------
-----------------------------------------------------------------------------
Pair(tr, k, s) ==
  LET e == tr[k]
      g == GroupOf(e.a)
      c == ProductContent(e.a, e.b)
      li == e.list
      lset == { li[i] : i \in 1..Len(li) }
      want == TableLabels(g, c)
      m(l) == IF l \in DOMAIN c THEN c[l] ELSE 0
      bad == Must(Cardinality(lset) = Len(li), "duplicate")
             \cup Must(\A l \in lset : l[1] = g[1] /\ Valid(l), "not-an-irrep")
             \cup Must(lset \ want = {}, "spurious")
             \cup Must(want \ lset = {}, "missing")
             \cup Must(~ComplexType(g) \/ SumFcn([l \in lset \cap DOMAIN c |-> m(l) * Dim(l)]) = Dim(e.a) * Dim(e.b), "dimension")
             \cup Must(e.same, "class")
             \cup Must(e.ra.d = Dim(e.a) /\ e.rb.d = Dim(e.b), "operand")
             \cup Must(s.todo = {}, "protocol")
  IN [st |-> [pair |-> k, todo |-> lset \cap want, content |-> c, rows |-> << >>, ok |-> RepFit(e.ra) /\ RepFit(e.rb)],
      bad |-> bad]

Cg(tr, k, s) ==
  LET e == tr[k]
      p == tr[s.pair]
      g == GroupOf(p.a)
      r1 == p.ra  r2 == p.rb  r3 == e.rep
      d1 == r1.d  d2 == r2.d
      n == HomBag(g, s.content, e.c)
      shape == e.shape = << Len(e.W), d1, d2, r3.d >>
      wok == s.ok /\ RepFit(r3) /\ shape /\ WShape(e.W, d1, d2, r3.d)
      c04 == IF ~wok THEN {"shape"} ELSE Must(Intertwines(r1, r2, r3, e.W), "intertwine")
      c05 == IF ~wok THEN {"shape"}
             ELSE Must(Len(e.W) = n, "count") \cup Must(Independent(e.W, e.iG), "independent")
  IN [st |-> [s EXCEPT !.todo = @ \ {e.c}, !.rows = IF wok /\ e.sum THEN @ \o [q \in 1..(Len(e.W) * r3.d) |-> e.W[((q - 1) \div r3.d) + 1].r[((q - 1) % r3.d) + 1]] ELSE @],
      bad |-> IF Prop = "C04" THEN c04 ELSE IF Prop = "C05" THEN c05 ELSE IF Prop = "C14" THEN c04 \cup c05 ELSE {} ]

Sum(tr, k, s) ==
  LET p == tr[s.pair]  d == p.ra.d * p.rb.d IN
  [st |-> Idle,
   bad |-> IF Prop \notin {"C05", "C14"} THEN {} ELSE Must(s.todo = {}, "coverage") \cup Must(~UnitaryTable(GroupOf(p.a)) \/ Unitary(s.rows, d), "unitary")]

(* the product was too large to look at all its couplings *)
End(s) == [st |-> Idle, bad |-> {}]

(* couplings of arbitrary representations *)
Gcg(tr, k, s) ==
  LET e == tr[k]
      ok == RepFit(e.r1) /\ RepFit(e.r2) /\ RepFit(e.r3)
      wok == ok /\ e.shape = << Len(e.W), e.r1.d, e.r2.d, e.r3.d >> /\ WShape(e.W, e.r1.d, e.r2.d, e.r3.d)
  IN [st |-> s,
      bad |-> IF ~ok THEN {"reps"} ELSE IF ~wok THEN {"shape"}
              ELSE IF Prop = "C04" THEN Must(Intertwines(e.r1, e.r2, e.r3, e.W), "intertwine")
              ELSE Must(Len(e.W) = Hom3(e.c1, e.c2, e.c3), "count") \cup Must(Independent(e.W, e.iG), "independent")]

(* the order, equality and trivial irrep of products of groups are those of the factors: lexicographic *)
Ord(tr, k, s) ==
  LET e == tr[k]  n == Len(e.labels) IN
  [st |-> s,
   bad |-> Must(\A i, j \in 1..n : e.lt[i][j] = (e.lt1[i][j] \/ (e.labels[i][2] = e.labels[j][2] /\ e.lt2[i][j])), "order")
           \cup Must(\A i, j \in 1..n : e.eq[i][j] = (e.labels[i] = e.labels[j]), "equality")
           \cup Must(\A i \in 1..n : e.triv[i] = TrivialOf(GroupOf(e.labels[i])), "trivial")
           \cup Must(\A i \in 1..n : e.dims[i] = Dim(e.labels[i]), "dimension")]

Step(tr, k, s) ==
  LET e == tr[k]
      r == IF e.exc # "" THEN [st |-> IF e.op \in {"sum", "end"} THEN Idle ELSE s, bad |-> {"raised"}]
           ELSE IF e.op = "pair" THEN Pair(tr, k, s)
           ELSE IF e.op = "cg" THEN (IF s.pair = 0 THEN [st |-> s, bad |-> {}] ELSE Cg(tr, k, s))
           ELSE IF e.op = "sum" THEN (IF s.pair = 0 THEN [st |-> s, bad |-> {}] ELSE Sum(tr, k, s))
           ELSE IF e.op = "end" THEN End(s)
           ELSE IF e.op = "ord" THEN Ord(tr, k, s)
           ELSE Gcg(tr, k, s)
      mine == IF Prop = "C03" THEN e.op = "pair" ELSE IF Prop \in {"C04", "C05"} THEN e.op # "pair" ELSE TRUE
  IN [st |-> r.st, bad |-> IF mine THEN { Prop \o ":" \o c : c \in r.bad } ELSE {}]

Init == TraceInit(Idle)
Next == TraceNext(Step)
Required == IF Prop = "C14" THEN {"PROD", "ord"} ELSE {"SU2", "SO3", "O3", "SL2C", "SO13", "SU2Real", "Z2", "SUN", "PROD"}
            \cup (IF Prop = "C03" THEN {} ELSE {"gcg/irrep", "gcg/mul", "gcg/red", "gcg/gen", "gcg/SN", "gcg/EXT", "end"})
Accepted == TraceAccepted(Required)
=============================================================================
