------------------------------ MODULE SessionGen ------------------------------
(* Behaviours of Session.tla for replay.  Mode "cover": one long session per  *)
(* group and variant, with a base store holding every form of representation  *)
(* and then every instance of the focus operations on it.  Mode "walk":       *)
(* random walks (simulation), with operands among everything built so far.    *)
EXTENDS Session, Json, IOUtils, SequencesExt, FiniteSetsExt, Randomization

CONSTANTS Mode, Focus, MaxDim, Depth, Variants, GroupSel
Seed == atoi(IOEnv.VERIF_SEED)

VARIABLES gi, var, store, hist, todo
vars == << gi, var, store, hist, todo >>

(* groups with a few small irreps each: <<label, dim>> *)
Z(p) == << << "Z2", p >>, 1 >>
AllGroups == <<
  [name |-> "SU2",  g |-> << "SU2" >>, irs |-> << << <<"SU2", 1>>, 2 >>, << <<"SU2", 2>>, 3 >>, << <<"SU2", 0>>, 1 >>, << <<"SU2", 3>>, 4 >> >>],
  [name |-> "SO3",  g |-> << "SO3" >>, irs |-> << << <<"SO3", 1>>, 3 >>, << <<"SO3", 0>>, 1 >>, << <<"SO3", 2>>, 5 >> >>],
  [name |-> "O3",   g |-> << "O3" >>, irs |-> << << <<"O3", 1, -1>>, 3 >>, << <<"O3", 0, -1>>, 1 >>, << <<"O3", 1, 1>>, 3 >>, << <<"O3", 0, 1>>, 1 >>, << <<"O3", 2, -1>>, 5 >> >>],
  [name |-> "SL2C", g |-> << "SL2C" >>, irs |-> << << <<"SL2C", 1, 0>>, 2 >>, << <<"SL2C", 0, 1>>, 2 >>, << <<"SL2C", 0, 0>>, 1 >>, << <<"SL2C", 1, 1>>, 4 >>, << <<"SL2C", 2, 0>>, 3 >> >>],
  [name |-> "SO13", g |-> << "SO13" >>, irs |-> << << <<"SO13", 2, 0>>, 3 >>, << <<"SO13", 0, 0>>, 1 >>, << <<"SO13", 0, 2>>, 3 >>, << <<"SO13", 1, 1>>, 4 >> >>],
  [name |-> "SU2Real", g |-> << "SU2Real" >>, irs |-> << << <<"SU2Real", 2>>, 3 >>, << <<"SU2Real", 1>>, 4 >>, << <<"SU2Real", 0>>, 1 >>, << <<"SU2Real", 4>>, 5 >> >>],
  [name |-> "SU2_", g |-> << "SUN", 2 >>, irs |-> << << <<"SUN", <<1, 0>>>>, 2 >>, << <<"SUN", <<0, 0>>>>, 1 >>, << <<"SUN", <<2, 0>>>>, 3 >> >>],
  [name |-> "SU3",  g |-> << "SUN", 3 >>, irs |-> << << <<"SUN", <<1, 0, 0>>>>, 3 >>, << <<"SUN", <<1, 1, 0>>>>, 3 >>, << <<"SUN", <<0, 0, 0>>>>, 1 >>, << <<"SUN", <<2, 0, 0>>>>, 6 >> >>],
  [name |-> "SU4",  g |-> << "SUN", 4 >>, irs |-> << << <<"SUN", <<1, 0, 0, 0>>>>, 4 >>, << <<"SUN", <<0, 0, 0, 0>>>>, 1 >>, << <<"SUN", <<1, 1, 1, 0>>>>, 4 >> >>],
  [name |-> "Z2",   g |-> << "Z2" >>, irs |-> << Z(-1), Z(1) >>],
  [name |-> "SU2xZ2", g |-> << "PROD", << "SU2" >>, << "Z2" >> >>,
     irs |-> << << <<"PROD", <<"SU2", 1>>, <<"Z2", -1>>>>, 2 >>, << <<"PROD", <<"SU2", 0>>, <<"Z2", -1>>>>, 1 >>, << <<"PROD", <<"SU2", 2>>, <<"Z2", 1>>>>, 3 >>, << <<"PROD", <<"SU2", 0>>, <<"Z2", 1>>>>, 1 >> >>],
  [name |-> "O3xSU2", g |-> << "PROD", << "O3" >>, << "SU2" >> >>,
     irs |-> << << <<"PROD", <<"O3", 0, -1>>, <<"SU2", 1>>>>, 2 >>, << <<"PROD", <<"O3", 1, -1>>, <<"SU2", 0>>>>, 3 >>, << <<"PROD", <<"O3", 1, 1>>, <<"SU2", 1>>>>, 6 >> >>],
  [name |-> "Z2xZ2xSO3", g |-> << "PROD", << "PROD", << "Z2" >>, << "Z2" >> >>, << "SO3" >> >>,
     irs |-> << << <<"PROD", <<"PROD", <<"Z2", -1>>, <<"Z2", 1>>>>, <<"SO3", 1>>>>, 3 >>, << <<"PROD", <<"PROD", <<"Z2", -1>>, <<"Z2", -1>>>>, <<"SO3", 0>>>>, 1 >> >>],
  [name |-> "S3",   g |-> << "SN", 3 >>, irs |-> << << <<"SN", "std", 3>>, 2 >>, << <<"SN", "nat", 3>>, 3 >>, << <<"SN", "triv", 3>>, 1 >> >>],
  [name |-> "S2",   g |-> << "SN", 2 >>, irs |-> << << <<"SN", "std", 2>>, 1 >>, << <<"SN", "nat", 2>>, 2 >> >>],
  [name |-> "S4",   g |-> << "SN", 4 >>, irs |-> << << <<"SN", "std", 4>>, 3 >>, << <<"SN", "triv", 4>>, 1 >>, << <<"SN", "nat", 4>>, 4 >> >>],
  \* the cyclic group of order 3 in complex unitary form (30 stands for it among the finite groups)
  [name |-> "C3",   g |-> << "SN", 30 >>, irs |-> << << <<"SN", "w2", 30>>, 2 >>, << <<"SN", "w", 30>>, 1 >>, << <<"SN", "triv", 30>>, 1 >> >>],
  \* U(1) (with a very small charge), the Heisenberg, affine and O(2) groups
  [name |-> "U1",   g |-> << "SN", 31 >>, irs |-> << << <<"SN", "eps", 31>>, 1 >>, << <<"SN", "pm", 31>>, 2 >>, << <<"SN", "triv", 31>>, 1 >>, << <<"SN", "two", 31>>, 1 >> >>],
  [name |-> "HEIS", g |-> << "SN", 32 >>, irs |-> << << <<"SN", "std", 32>>, 3 >>, << <<"SN", "char", 32>>, 1 >>, << <<"SN", "triv", 32>>, 1 >> >>],
  [name |-> "AFF",  g |-> << "SN", 33 >>, irs |-> << << <<"SN", "std", 33>>, 2 >>, << <<"SN", "char", 33>>, 1 >>, << <<"SN", "dual", 33>>, 2 >> >>],
  [name |-> "O2",   g |-> << "SN", 34 >>, irs |-> << << <<"SN", "one", 34>>, 2 >>, << <<"SN", "det", 34>>, 1 >>, << <<"SN", "half", 34>>, 2 >>, << <<"SN", "triv", 34>>, 1 >> >>]
>>
GroupNames == IF GroupSel = "all" THEN 1..Len(AllGroups) ELSE { i \in 1..Len(AllGroups) : AllGroups[i].name = GroupSel }

Ir(i, k) == LET s == AllGroups[i].irs IN s[((k - 1) % Len(s)) + 1]
LoadKind(i) == IF AllGroups[i].g[1] = "SN" THEN "gen" ELSE "irrep"

Gp3D(a, b, c) == LET ab == GpD(a, b, GpTag(a, b)) IN GpD(ab, c, GpTag(ab, c))

(* one step: action record a, resulting object o (a query leaves the store) *)
Push(a, o) == [act |-> a, obj |-> << o >>]
Ask(a) == [act |-> a, obj |-> << >>]

BaseActs(i, v) ==
  LET a == Ir(i, v)  b == Ir(i, v + 1)  c == Ir(i, v + 2)
      g == AllGroups[i].g  kd == LoadKind(i)
      A == Obj(kd, g, "std", a[2])  B == Obj(kd, g, "std", b[2])  C == Obj(kd, g, "std", c[2])
      m == << 2, 3, 1, 0 >>[((v + i) % 4) + 1]
      M == MulD(A, 2)  N == MulD(B, m)
  IN << Push([op |-> "load", label |-> a[1]], A),
        Push([op |-> "load", label |-> b[1]], B),
        Push([op |-> "mul", i |-> 1, m |-> 2], M),
        Push([op |-> "mul", i |-> 2, m |-> m], N),
        Push([op |-> "red", ids |-> IF v % 2 = 0 THEN << 2, 1 >> ELSE << 4, 1 >>, q |-> "none"], RedD(IF v % 2 = 0 THEN << B, A >> ELSE << N, A >>)),
        Push([op |-> "red", ids |-> << 1, 4, 2 >>, q |-> IF v % 2 = 0 THEN "gen" ELSE "cplx"], RedD(<< A, N, B >>)),
        Push([op |-> "gen", i |-> 1], GenD(A)),
        Push([op |-> "load", label |-> c[1]], C),
        Push([op |-> "cb", i |-> 2, q |-> IF v % 2 = 0 THEN "cplx" ELSE "tiny"], CbD(B)) >>

\* "tiny": a matrix times a diagonal matrix of very different small scales which commutes with the generators
Qs == << "gen", "cplx", "orth", "int", "unit", "tiny" >>
QAt(k) == Qs[(k % 6) + 1]
CaQs == { "gen", "cplx", "orth", "int" }

NearWhat == CASE Focus = "C07" -> {"tpl", "tpr"} [] Focus = "C10" -> {"red"} [] Focus = "C11" -> {"cb"} [] Focus = "C12" -> {"ca"} [] OTHER -> {}

(* all the instances of one operation on a store s *)
Inst(op, s) ==
  LET I == 1..Len(s) IN
  CASE op = "tp" -> { Push([op |-> "tp", i |-> i, j |-> j], TpD(s[i], s[j])) :
                        i \in I, j \in { j \in I : TRUE } }
    [] op = "tpow" -> { Push([op |-> "tpow", i |-> i, p |-> p], TpowD(s[i], p)) :
                        i \in { i \in I : s[i].d > 0 }, p \in 0..9 }
    [] op = "dsum" -> { Push([op |-> "dsum", i |-> i, j |-> j], DsumD(s[i], s[j])) : i \in I, j \in I }
    [] op = "mul" -> { Push([op |-> "mul", i |-> i, m |-> m], MulD(s[i], m)) : i \in I, m \in (0..4) \cup (IF Focus = "C10" THEN {10} ELSE {}) }
    [] op = "red" -> { Push([op |-> "red", ids |-> ids, q |-> QAt(ids[1] + Len(ids))], RedD([k \in 1..Len(ids) |-> s[ids[k]]])) :
                        ids \in { << i >> : i \in I } \cup { p \in I \X I : ((p[1] + p[2]) % 3) = 0 }
                                 \cup { << p[1], p[2], p[1] >> : p \in { p \in I \X I : ((p[1] + 2 * p[2]) % 4) = 1 } } }
                     \cup { Push([op |-> "red", ids |-> ids, q |-> "none"], RedD([k \in 1..Len(ids) |-> s[ids[k]]])) :
                        ids \in { << i >> : i \in I } \cup { p \in I \X I : ((p[1] + p[2]) % 3) = 1 } }
    [] op = "cb" -> { Push([op |-> "cb", i |-> i, q |-> q], CbD(s[i])) : i \in I, q \in Range(Qs) }
    [] op = "cbpair" -> { Ask([op |-> "cbpair", i |-> i, q |-> q, q2 |-> q2]) : i \in I, q \in {"gen", "cplx", "unit", "tiny"}, q2 \in {"gen", "int"} }
    \* first order effect of a matrix next to the identity
    [] op = "near" -> { Ask([op |-> "near", i |-> i, what |-> w, how |-> h]) : i \in I, w \in NearWhat, h \in {"diag", "full"} }
    [] op = "ca" -> { Push([op |-> "ca", i |-> i, q |-> q], CaD(s[i], "ca" \o ToString(Len(s)))) : i \in I, q \in CaQs }
    \* by a matrix times scales of very different size, which are divided out of the result
    [] op = "catilt" -> { Ask([op |-> "catilt", i |-> i, q |-> q]) : i \in I, q \in {"gen", "orth"} }
    [] op = "capair" -> { Ask([op |-> "capair", i |-> i, q |-> q, q2 |-> q2]) : i \in I, q \in {"gen", "orth", "cplx"}, q2 \in {"gen", "int"} }
    [] op = "conj" -> { Push([op |-> "conj", i |-> i], ConjD_(s[i])) : i \in I }
    [] op = "isunit" -> { Ask([op |-> "isunit", i |-> i, eps |-> x[1], how |-> x[2]]) : i \in I,
                          x \in { x \in (0..5) \X { "asis", "unit", "corth", "phase" } : x[1] = 0 \/ x[2] \in { "asis", "unit" } } }
    [] op = "gp" -> { Push([op |-> "gp", i |-> i, j |-> j], GpD(s[i], s[j], GpTag(s[i], s[j]))) : i \in I, j \in I }
    [] op = "gp3" -> { Push([op |-> "gp3", i |-> i, j |-> j, k |-> k], Gp3D(s[i], s[j], s[k])) : i \in I, j \in I, k \in {1, 3} }
    [] op = "triv" -> { Push([op |-> "triv", i |-> i], TrivD(s[i])) : i \in I }
    [] op = "istriv" -> { Ask([op |-> "istriv", i |-> i, eps |-> e]) : i \in I, e \in 0..3 }
    [] op = "gen" -> { Push([op |-> "gen", i |-> i], GenD(s[i])) : i \in I }
    [] OTHER -> {}

\* products with several copies of one irrep are larger
Limit(x, o) == IF Focus \in {"C07", "C08"} /\ x.act.op = "tp" /\ o.g = << "SU2Real" >> /\ MaxDim < 32 THEN 32 ELSE MaxDim
DimOk(x) == \A k \in 1..Len(x.obj) : x.obj[k].d <= Limit(x, x.obj[k])
OpOk(x, s) ==
  LET a == x.act IN
  /\ DimOk(x)
  /\ a.op \in {"tp", "dsum"} => Compatible(s[a.i], s[a.j])
  /\ a.op = "red" => /\ \A k \in 1..Len(a.ids) : Compatible(s[a.ids[1]], s[a.ids[k]])
                     /\ x.obj[1].d > 0
  /\ a.op \in {"ca", "capair", "catilt"} => s[a.i].n > 0
  /\ a.op = "near" => s[a.i].d > 0 /\ (a.what = "ca" => s[a.i].n > 0)
  /\ a.op \in {"cb", "cbpair"} => s[a.i].d > 0
  /\ a.op \in {"gp", "gp3"} => x.obj[1].n <= 12
  /\ a.op = "tp" => s[a.i].d * s[a.j].d > 0 \/ s[a.i].kind \in Structured
  /\ a.op = "tpow" => (a.p <= 1 \/ s[a.i].d <= 4) /\ (s[a.i].d = 1 \/ a.p <= 6)

FocusOps == CASE Focus = "C07" -> << "tp", "near" >>
              [] Focus = "C08" -> << "tp", "tpow" >>
              [] Focus = "C09" -> << "tpow" >>
              [] Focus = "C10" -> << "dsum", "mul", "red", "near" >>
              [] Focus = "C11" -> << "cb", "cbpair", "near" >>
              [] Focus = "C12" -> << "ca", "capair", "catilt", "near" >>
              [] Focus = "C13" -> << "conj", "isunit" >>
              [] Focus = "C14" -> << "gp", "gp3" >>
              [] Focus = "C29" -> << "triv", "istriv" >>
              [] OTHER -> << "tp" >>
(* after the trivial representation was made, it is tensored on both sides *)
ExtraActs(i, s) ==
  IF Focus # "C29" THEN << >>
  ELSE LET ts == SetToSeq({ k \in 1..Len(s) : k > 9 /\ k <= 9 + 9 })
       IN FlattenSeq([k \in 1..9 |-> << Push([op |-> "tp", i |-> k, j |-> 9 + k], TpD(s[k], TrivD(s[k]))),
                                         Push([op |-> "tp", i |-> 9 + k, j |-> k], TpD(TrivD(s[k]), s[k])) >>])

(* the focus operations only use the base objects, so that their number is bounded *)
CoverPlan(i, v) ==
  LET base == BaseActs(i, v)
      s == [k \in 1..Len(base) |-> base[k].obj[1]]
      foc == FlattenSeq([q \in 1..Len(FocusOps) |-> SetToSeq({ x \in Inst(FocusOps[q], s) : OpOk(x, s) })])
      \* the trivial representations come first and in order
      foc29 == [k \in 1..9 |-> Push([op |-> "triv", i |-> k], TrivD(s[k]))]
               \o SetToSeq(Inst("istriv", s \o [k \in 1..9 |-> TrivD(s[k])]))
  IN base \o (IF Focus = "C29" THEN foc29 \o ExtraActs(i, s) ELSE foc)

Acts(h) == [k \in 1..Len(h) |-> h[k].act]
Emit(i, v, h) == PrintT("@@BEH " \o ToJson([group |-> AllGroups[i].name, variant |-> v, acts |-> Acts(h)]))

Init == /\ gi \in GroupNames /\ var \in Variants
        /\ todo = << >> /\ store = << >>
        /\ hist = << >>

Cover == /\ Mode = "cover" /\ hist = << >>
         /\ hist' = CoverPlan(gi, var) /\ Emit(gi, var, hist')
         /\ UNCHANGED << gi, var, store, todo >>

(* random walk *)
WalkOps == << "tp", "tp", "tpow", "dsum", "mul", "red", "cb", "ca", "conj", "gp", "triv", "gen", "isunit", "istriv", "cbpair", "capair" >>
FocusW == FocusOps \o FocusOps \o WalkOps
Start == /\ Mode = "walk" /\ hist = << >>
         /\ hist' = BaseActs(gi, var)
         /\ store' = [k \in 1..Len(hist') |-> hist'[k].obj[1]]
         /\ UNCHANGED << gi, var, todo >>
Walk == /\ Mode = "walk" /\ hist # << >> /\ Len(hist) < Depth
        /\ \E op \in {FocusW[RandomElement(1..Len(FocusW))]} :
             LET cand == { x \in Inst(op, store) : OpOk(x, store) }
             IN \E x \in (IF cand = {} THEN { Ask([op |-> "istriv", i |-> 1, eps |-> 0]) } ELSE { RandomElement(cand) }) :
                  /\ hist' = Append(hist, x)
                  /\ store' = store \o x.obj
        /\ IF Len(hist') = Depth THEN Emit(gi, var, hist') ELSE TRUE
        /\ UNCHANGED << gi, var, todo >>
Next == Cover \/ Start \/ Walk

(* the store never shrinks and the descriptions stay consistent *)
TypeOk == \A k \in 1..Len(store) : store[k].d >= 0 /\ store[k].n = GLie(store[k].g) /\ store[k].h = GDisc(store[k].g)
=============================================================================
