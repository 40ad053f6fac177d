------------------------------ MODULE PurityGen ------------------------------
(* Histories of calls for C27.  A history is a base store of values, a list   *)
(* of calls on them, and what happens afterwards: every call may be repeated  *)
(* ("again"), repeated with equal copies of its arguments ("copy"), have its  *)
(* result overwritten by the caller ("scribble"), and the whole store may be  *)
(* looked at ("sweep").  Mode "pcover": every operation on the base store,    *)
(* then repeats in reverse order.  Mode "pwalk": random interleavings.        *)
EXTENDS SessionGen

(* calls on the representations of the store s of group i; stride keeps it bounded *)
Pick(S, v, n) == LET q == SetToSeq(S)  m == Len(q)
                 IN IF m <= n THEN q
                    ELSE [k \in 1..n |-> q[(((((k - 1) * m) \div n) + v) % m) + 1]]
C(op, args) == [op |-> op, args |-> args]
Irreps(s) == { k \in 1..Len(s) : s[k].kind = "irrep" }
SameDim(s) == { p \in (1..Len(s)) \X (1..Len(s)) : Compatible(s[p[1]], s[p[2]]) /\ s[p[1]].d = s[p[2]].d }
Pairs(s) == { p \in (1..Len(s)) \X (1..Len(s)) : Compatible(s[p[1]], s[p[2]]) /\ s[p[1]].d * s[p[2]].d \in 1..MaxDim }
Twins(s) == SetToSeq({ p \in Irreps(s) \X Irreps(s) : p[1] # p[2] /\ s[p[1]].g = s[p[2]].g /\ s[p[1]].d = s[p[2]].d /\ s[p[1]].d <= 6 })
Sized(s, n) == { k \in 1..Len(s) : s[k].d \in 1..n }
Red(s, n) == { k \in 1..Len(s) : s[k].d \in 1..n /\ s[k].kind # "gen" }
Formulas2 == {"ij=ji", "ij=-ji", "ij"}
Formulas3 == {"ijk=jik", "ijk=-jik=-ikj", "ijk=jki", "ijk=ikj"}

RepCalls(s, v, n) ==
  LET one(op, S) == [k \in 1..Len(Pick(S, v, n)) |-> C(op, << Pick(S, v, n)[k] >>)]
      two(op, S) == [k \in 1..Len(Pick(S, v, n)) |-> C(op, Pick(S, v, n)[k])]
      ir == Irreps(s)
      trip == { t \in ir \X ir \X ir : s[t[1]].d * s[t[2]].d * s[t[3]].d \in 1..150 }
  IN two("tp", Pairs(s)) \o [k \in 1..Len(Pick(Sized(s, 5), v, n)) |-> C("tpow", << Pick(Sized(s, 5), v, n)[k], 2 >>)]
     \o two("dsum", Pairs(s)) \o one("mul", 1..Len(s)) \o two("red", Pairs(s)) \o two("redq", Pairs(s))
     \o one("cb", Sized(s, MaxDim)) \o one("ca", { k \in 1..Len(s) : s[k].n > 0 }) \o one("conj", 1..Len(s))
     \o two("gp", { p \in Pairs(s) : s[p[1]].n <= 8 }) \o one("triv", 1..Len(s)) \o one("gen", 1..Len(s))
     \o one("isunit", 1..Len(s)) \o one("istriv", 1..Len(s)) \o one("irred", Sized(s, 8)) \o one("isreal", ir) \o one("mkreal", ir)
     \o one("reduce", Sized(s, 8)) \o one("read", 1..Len(s)) \o one("exp", Sized(s, 12)) \o one("text", 1..Len(s)) \o one("fromrep", 1..Len(s))
     \o two("cg", trip) \o two("infer", SameDim(s)) \o two("cgtp", { p \in ir \X ir : s[p[1]].d * s[p[2]].d <= 36 })
     \* both orders of two irreps of equal dimension, which are easily confused
     \o [k \in 1..Len(Twins(s)) |-> C("cgtp", Twins(s)[k])] \o [k \in 1..Len(Twins(s)) |-> C("tp", Twins(s)[k])] \o one("check", 1..Len(s))
     \o [k \in 1..Len(Pick({ p \in Red(s, 4) \X Formulas2 : TRUE }, v, n)) |-> LET p == Pick({ p \in Red(s, 4) \X Formulas2 : TRUE }, v, n)[k] IN C("rtp", << p[1], p[2] >>)]
     \o [k \in 1..Len(Pick({ p \in Red(s, 3) \X Formulas3 : TRUE }, v, n)) |-> LET p == Pick({ p \in Red(s, 3) \X Formulas3 : TRUE }, v, n)[k] IN C("rtp", << p[1], p[2] >>)]
     \o [k \in 1..Len(Pick({ p \in Red(s, 3) \X {2, 3} : TRUE }, v, n)) |-> LET p == Pick({ p \in Red(s, 3) \X {2, 3} : TRUE }, v, n)[k] IN C("rstp", p)]
     \o two("rtplist", { p \in Pairs(s) : s[p[1]].d * s[p[2]].d <= 16 /\ s[p[1]].kind # "gen" /\ s[p[2]].kind # "gen" })

(* arrays: the base values (kinds are drawn by the driver) and the calls on them *)
ArrBase == << "wide", "wide2", "tall", "sq", "sqc", "sym", "gens", "gens2", "table", "perm", "values", "many", "blocks",
   "noisy", "noisyc", "noisyg", "ratios" >>
At(nm) == CHOOSE k \in 1..Len(ArrBase) : ArrBase[k] = nm
A1(op, nms) == [k \in 1..Len(nms) |-> C(op, << At(nms[k]) >>)]
A2(op, ps) == [k \in 1..Len(ps) |-> C(op, << At(ps[k][1]), At(ps[k][2]) >>)]
ArrCalls ==
  A1("nullspace", << "wide", "wide2", "sq", "sqc", "tall" >>) \o A1("gram", << "wide", "tall", "sqc", "wide2" >>)
  \o A1("extend", << "wide", "wide2", "tall" >>) \o A1("extendE", << "wide", "wide2" >>)
  \o A2("seqnull", << << "wide", "wide2" >>, << "wide2", "wide" >> >>) \o A2("intersect", << << "wide", "wide2" >>, << "wide2", "wide" >> >>)
  \o A1("inferalg", << "gens", "gens2" >>) \o A1("checkalg", << "gens", "gens2" >>)
  \o A1("round", << "sq", "sqc", "values", "many" >>) \o A1("roundsym", << "sym" >>)
  \o A1("vmap", << "gens", "many" >>) \o A2("kron", << << "sq", "sqc" >>, << "wide", "sq" >> >>)
  \o A2("adsum", << << "sq", "sqc" >>, << "wide", "tall" >> >>) \o A2("bdiag", << << "sq", "sym" >>, << "sqc", "sq" >> >>)
  \o A2("comm", << << "sq", "sqc" >>, << "sym", "sq" >> >>) \o A1("unique", << "values" >>) \o A1("eigen", << "sym" >>)
  \o A1("psign", << "perm" >>) \o A1("decompose", << "blocks" >>) \o A1("airred", << "blocks", "gens" >>) \o A1("regular", << "table" >>)
  \o A2("icob", << << "gens", "gens2" >>, << "gens2", "gens" >>, << "gens", "gens" >> >>)
  \o A1("matpow", << "sq", "sqc", "noisy" >>)
  \* entries that a tidying function is tempted to clean
  \o A1("nullspace", << "noisy", "noisyc" >>) \o A1("gram", << "noisy", "noisyc" >>) \o A1("extend", << "noisy" >>) \o A1("round", << "noisy", "noisyc", "noisyg" >>)
  \o A1("ratio", << "noisy", "values", "many" >>) \o A1("norm", << "ratios" >>) \o A1("limit", << "ratios" >>) \o A1("vmap", << "noisyg" >>)
  \o A1("inferalg", << "noisyg" >>) \o A1("checkalg", << "noisyg" >>) \o A1("airred", << "noisyg" >>) \o A1("decompose", << "noisyg" >>)
  \o A2("icob", << << "noisyg", "noisyg" >> >>) \o A2("kron", << << "noisy", "noisyc" >> >>) \o A2("adsum", << << "noisyc", "noisy" >> >>)
  \o A2("bdiag", << << "noisy", "noisyc" >> >>) \o A2("comm", << << "noisy", "noisyc" >> >>) \o A2("seqnull", << << "noisyc", "noisyc" >> >>)
  \o A2("intersect", << << "noisy", "noisyc" >> >>) \o A1("unique", << "noisy", "noisyc" >>)

Do(k) == [do |-> "call", cid |-> k]
(* calls forward, a look, overwriting of what was returned, and everything again backwards *)
PlanOf(n, v) ==
  [k \in 1..n |-> [do |-> "call", cid |-> k]]
  \o << [do |-> "sweep", cid |-> 0] >>
  \o [k \in 1..n |-> [do |-> IF (k + v) % 3 = 0 THEN "copy" ELSE "again", cid |-> n + 1 - k]]
  \o << [do |-> "sweep", cid |-> 0] >>
  \o [k \in 1..n |-> [do |-> "scribble", cid |-> k]]
  \o << [do |-> "sweep", cid |-> 0] >>
  \o [k \in 1..n |-> [do |-> "again", cid |-> ((k * 7 + v) % n) + 1]]
  \o [k \in 1..n |-> [do |-> IF (k + v) % 2 = 0 THEN "copy" ELSE "again", cid |-> n + 1 - k]]
  \o << [do |-> "sweep", cid |-> 0] >>

PEmit(nm, v, base, calls, plan) == PrintT("@@BEH " \o ToJson([group |-> nm, variant |-> v, base |-> base, calls |-> calls, plan |-> plan]))

PInit == Init /\ (Mode = "pcover" => TRUE)
NAt == Depth   \* instances of each operation
PCover == /\ Mode = "pcover" /\ hist = << >>
          /\ hist' = BaseActs(gi, var)
          /\ store' = [k \in 1..Len(hist') |-> hist'[k].obj[1]]
          /\ todo' = RepCalls(store', var, NAt)
          /\ PEmit(AllGroups[gi].name, var, Acts(hist'), todo', PlanOf(Len(todo'), var))
          /\ IF gi = 1 THEN PEmit("arrays", var, ArrBase, ArrCalls, PlanOf(Len(ArrCalls), var)) ELSE TRUE
          /\ UNCHANGED << gi, var >>

(* random interleavings of calls, repeats, overwriting and looks *)
RandomPlan(n, m) ==
  LET R == [k \in 1..m |-> << RandomElement(1..n), RandomElement(1..10) >>]
  IN [k \in 1..m |-> LET r == R[k]  called == \E q \in 1..(k - 1) : R[q][1] = r[1] /\ R[q][2] <= 10
                     IN IF ~called THEN [do |-> "call", cid |-> r[1]]
                        ELSE [do |-> IF r[2] <= 5 THEN "again" ELSE IF r[2] <= 7 THEN "copy" ELSE IF r[2] <= 9 THEN "scribble" ELSE "sweep", cid |-> r[1]]]
     \o << [do |-> "sweep", cid |-> 0] >>
PWalk == /\ Mode = "pwalk" /\ hist = << >>
         /\ hist' = BaseActs(gi, var)
         /\ store' = [k \in 1..Len(hist') |-> hist'[k].obj[1]]
         /\ todo' = RepCalls(store', RandomElement(1..50), 4)
         /\ PEmit(AllGroups[gi].name, var, Acts(hist'), todo', RandomPlan(Len(todo'), Depth))
         /\ IF gi = 1 THEN PEmit("arrays", var, ArrBase, ArrCalls, RandomPlan(Len(ArrCalls), Depth)) ELSE TRUE
         /\ UNCHANGED << gi, var >>
PNext == PCover \/ PWalk
=============================================================================
