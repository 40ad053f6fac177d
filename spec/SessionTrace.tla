------------------------------ MODULE SessionTrace ------------------------------
(* C07-C14, C29 and the session part of C27.                                  *)
(*                                                                            *)
(* Follows the state machine of Session.tla along a recorded session.  The    *)
(* abstract store holds, for every object, its description, the event that    *)
(* created it (whose logged generators are the operands of later actions),    *)
(* its weight multiset (content) when it is known, and its digest.  The       *)
(* generators an action must produce are computed here from the logged        *)
(* generators of its operands.                                                *)
EXTENDS TraceBase, RepOps

NoBag == NoWeights
Hole == [line |-> 0, dsc |-> [kind |-> "hole"], bag |-> NoBag, known |-> FALSE, dig |-> "", triv |-> FALSE]
IsHole(o) == o.line = 0

-----------------------------------------------------------------------------
-----------------------------------------------------------------------------
PropsOf(op) == CASE op = "tp" -> {"C07", "C08", "C29"}
                 [] op = "tpow" -> {"C09", "C08"}
                 [] op \in {"dsum", "mul", "red"} -> {"C10"}
                 [] op \in {"cb", "cbpair"} -> {"C11"}
                 [] op \in {"ca", "capair", "catilt"} -> {"C12"}
                 [] op \in {"conj", "isunit"} -> {"C13"}
                 [] op \in {"gp", "gp3"} -> {"C14"}
                 [] op \in {"triv", "istriv"} -> {"C29"}
                 [] op = "near" -> {"C07", "C10", "C11", "C12"}
                 [] OTHER -> {}
Pushes == {"load", "mul", "red", "gen", "tp", "tpow", "dsum", "cb", "ca", "conj", "gp", "gp3", "triv"}
Tag(cs) == { Prop \o ":" \o c : c \in cs }

(* the description of the result *)
DscOf(e, s) ==
  LET D(q) == s[e.args[q]].dsc IN
  CASE e.op = "load" -> IF e.label[1] = "SN" THEN Obj("gen", << "SN", e.label[3] >>, "std", e.rep.d)
                        ELSE Obj("irrep", GroupOf(e.label), "std", Dim(e.label))
    [] e.op = "mul" -> MulD(D(1), e.m)
    [] e.op = "red" -> RedD([q \in 1..Len(e.args) |-> D(q)])
    [] e.op = "gen" -> GenD(D(1))
    [] e.op = "tp" -> TpD(D(1), D(2))
    [] e.op = "tpow" -> TpowD(D(1), e.p)
    [] e.op = "dsum" -> DsumD(D(1), D(2))
    [] e.op = "cb" -> CbD(D(1))
    [] e.op = "ca" -> CaD(D(1), "ca")
    [] e.op = "conj" -> ConjD_(D(1))
    [] e.op = "gp" -> GpD(D(1), D(2), "gp")
    [] e.op = "gp3" -> GpD(GpD(D(1), D(2), "gp"), D(3), "gp")
    [] e.op = "triv" -> TrivD(D(1))

(* content of the result of an action on structured operands with known content *)
RECURSIVE BagPow(_, _, _)
BagPow(g, B, n) == IF n = 0 THEN Weights(TrivialOf(g)) ELSE BagMul(g, B, BagPow(g, B, n - 1))
BagOf(e, s) ==
  LET B(q) == s[e.args[q]].bag  g == s[e.args[1]].dsc.g IN
  CASE e.op = "load" -> IF e.label[1] = "SN" THEN NoBag ELSE Weights(e.label)
    [] e.op = "mul" -> BagScale(e.m, B(1))
    [] e.op = "red" -> FoldLeft(LAMBDA acc, q : BagAdd(acc, B(q)), NoBag, [q \in 1..Len(e.args) |-> q])
    [] e.op = "tp" -> BagMul(g, B(1), B(2))
    [] e.op = "tpow" -> BagPow(g, B(1), e.p)
    [] e.op = "triv" -> Weights(TrivialOf(g))
    [] OTHER -> B(1)
KnownOf(e, s) ==
  CASE e.op = "load" -> e.label[1] # "SN"
    [] e.op \in {"mul", "red", "tp", "tpow", "cb", "triv"} ->
         \A q \in 1..Len(e.args) : s[e.args[q]].known
    [] e.op = "gp" -> FALSE
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* The change of basis that was used is Q times a diagonal matrix with one    *)
(* entry per class of comp; it commutes with what it conjugates.              *)
Within(M, off, comp) == \A i \in 1..M.n : \A x \in 1..Len(M.r[i]) : comp[off + i] = comp[off + M.r[i][x][1]]
Commutes(comp, reps, tot) ==
  comp = << >> \/
  LET off == Offsets([q \in 1..Len(reps) |-> reps[q].d]) IN
  /\ Len(comp) = tot
  /\ \A q \in 1..Len(reps) : /\ \A a \in 1..reps[q].n : Within(reps[q].X[a], off[q - 1], comp)
                             /\ \A a \in 1..reps[q].h : Within(reps[q].H[a], off[q - 1], comp)

(* First order effect of the matrix 1 + eps N: e.diff is (new - old) / eps.   *)
Bracket(N, M, d, R) ==
  LET n == Dense(N)  m == Dense(M) IN
  R.ok /\ R.n = d /\ \A i \in 1..d : LET row == DenseRow(R.r[i], d) IN \A j \in 1..d :
    LET s == FoldLeft(LAMBDA t, e : MsubS(t, e, n[e[1]][j]), DotS(N.r[i], m, j), M.r[i])
    IN SmallI(UnitsRe(s) - ReU(row[j]), CTol) /\ SmallI(UnitsIm(s) - ImU(row[j]), CTol)
NoAlg(A, n) == [n |-> n, ok |-> TRUE, e |-> << >>]
NearCb(d, N, q) ==
  /\ d.d = q.d /\ d.n = q.n /\ d.h = q.h /\ NearAlg(d.A, NoAlg(d.A, q.n), Tol)
  /\ \A a \in 1..q.n : Bracket(N, q.X[a], q.d, d.X[a])
  /\ \A a \in 1..q.h : Bracket(N, q.H[a], q.d, d.H[a])
NearCa(d, N, q) ==
  LET n == q.n
      al == AlgFn(q.A)
      nd == Dense(N)
      D == TLCEval([k \in 1..n |-> Dense(q.X[k])])
      da == AlgFn(d.A)
      at(f, i, j, k) == FoldLeft(LAMBDA z, p : IF p[1] = k THEN p[2] ELSE z, Z4, f[<< i, j >>])
      \* N_ia A_ajk + N_jb A_ibk - A_ijc N_ck
      S1(i, j, k) == FoldLeft(LAMBDA s, e : MacS(s, e, at(al, e[1], j, k)), Acc0, N.r[i])
      S2(i, j, k) == FoldLeft(LAMBDA s, e : MacS(s, e, at(al, i, e[1], k)), S1(i, j, k), N.r[j])
      S3(i, j, k) == FoldLeft(LAMBDA s, p : Msub(s, p[2], nd[p[1]][k]), S2(i, j, k), al[<< i, j >>])
  IN /\ d.d = q.d /\ d.n = n /\ d.h = q.h /\ d.A.ok
     /\ \A a \in 1..q.h : IsZeroM(d.H[a])
     /\ \A a \in 1..n : d.X[a].ok /\ \A u \in 1..q.d : LET row == DenseRow(d.X[a].r[u], q.d) IN \A v \in 1..q.d :
          LET s == FoldLeft(LAMBDA acc, e : MacS(acc, e, D[e[1]][u][v]), Acc0, N.r[a])
          IN SmallI(UnitsRe(s) - ReU(row[v]), CTol) /\ SmallI(UnitsIm(s) - ImU(row[v]), CTol)
     /\ \A i, j, k \in 1..n : LET s == S3(i, j, k)  x == at(da, i, j, k)
          IN SmallI(UnitsRe(s) - ReU(x), CTol) /\ SmallI(UnitsIm(s) - ImU(x), CTol)

(* the numerical meaning of each action *)
Numeric(tr, e, s) ==
  LET r == e.rep
      R(q) == tr[s[e.args[q]].line].rep
  IN
  CASE e.op = "tp" -> Must(TpOk(r, R(1), R(2)), "tensor-product")
    [] e.op = "tpow" -> Must(TpowOk(r, R(1), e.p), "tensor-power")
    [] e.op = "dsum" -> Must(NearAlg(r.A, R(1).A, Tol), "constants") \cup Must(BlocksOk(r, << R(1), R(2) >>), "direct-sum")
    [] e.op = "mul" -> Must(NearAlg(r.A, R(1).A, Tol), "constants")
                       \cup Must(BlocksOk(r, [q \in 1..e.m |-> R(1)]), "multiple")
    [] e.op = "red" ->
         LET n == Len(e.args)  ds == [q \in 1..n |-> R(q).d] IN
         Must(NearAlg(r.A, R(1).A, Tol), "constants") \cup Must(Commutes(e.comp, [q \in 1..n |-> R(q)], r.d), "harness")
         \cup Must((~BoundedRep(r) /\ \E q \in 1..n : ~TameRep(R(q), r.d)) \/ Conjugated(r, e.Q, LAMBDA a : BlockD([q \in 1..n |-> R(q).X[a]], ds),
                                      LAMBDA a : BlockD([q \in 1..n |-> R(q).H[a]], ds)), "reduced-sum")
    [] e.op = "cb" -> Must(NearAlg(r.A, R(1).A, Tol), "constants") \cup Must(Commutes(e.comp, << R(1) >>, r.d), "harness")
                      \cup Must((~BoundedRep(r) /\ ~TameRep(R(1), r.d)) \/ Conjugated(r, e.Q, LAMBDA a : Dense(R(1).X[a]), LAMBDA a : Dense(R(1).H[a])), "change-of-basis")
    [] e.op = "cbpair" ->
         Must(SameRep(e.two, e.joint, CTol), "composition") \cup Must(SameRep(e.back, R(1), CTol), "inverse")
         \cup (IF ~ShapesOk(e.one) \/ ~ShapesOk(e.two) \/ e.two.n # R(1).n \/ e.two.h # R(1).h THEN {"shapes"}
               ELSE Must((~BoundedRep(e.one) /\ ~TameRep(R(1), R(1).d)) \/ Conjugated(e.one, e.Q, LAMBDA a : Dense(R(1).X[a]), LAMBDA a : Dense(R(1).H[a])), "change-of-basis"))
    [] e.op = "near" -> IF e.what = "ca" THEN Must(NearCa(e.diff, e.N, R(1)), "next-to-identity")
                        ELSE Must(NearCb(e.diff, e.N, R(1)), "next-to-identity")
    [] e.op \in {"ca", "catilt"} -> Must((~BoundedRep(r) /\ \E a \in 1..r.n : EntMax(R(1).X[a]) > 2048) \/ CaX(r, R(1), e.Q), "generators") \cup Must(CaA(r, R(1), e.Q), "constants")
                      \cup Must(\A a \in 1..r.h : NearM(r.H[a], R(1).H[a], 0), "discrete")
    [] e.op = "capair" -> Must(SameRep(e.two, e.joint, 4 * CTol), "composition")
    [] e.op = "conj" -> Must(NearAlg(r.A, R(1).A, Tol), "constants")
                        \cup Must(XOk(r, R(1), LAMBDA P, Q : ConjM(P, Q, 0)) /\ HOk(r, R(1), LAMBDA P, Q : ConjM(P, Q, 0)), "conjugate")
                        \cup Must(SameRep(e.twice, R(1), 0), "twice")
    [] e.op = "isunit" ->
         LET q == e.seen
             coarse == (\A a \in 1..q.n : AntiHermitianM(q.X[a])) /\ (\A a \in 1..q.h : UnitaryM(q.H[a]))
         IN Must(coarse \/ ~e.val, "unitary-but-not")
            \cup Must(e.dev14 <= 1000000 \/ ~e.val, "unitary-but-not")
            \cup Must(e.dev14 > 2 \/ e.val, "not-unitary-but-is")
    [] e.op = "gp" -> Must(GpOk(r, R(1), R(2)), "group-product")
    [] e.op = "gp3" -> Must(GpOk(r, GpRep(R(1), R(2)), R(3)), "group-product")
    [] e.op = "triv" -> Must(NearAlg(r.A, R(1).A, Tol), "constants")
                        \cup Must(\A k \in 1..r.n : IsZeroM(r.X[k]), "continuous")
                        \cup Must(\A k \in 1..r.h : IsIdentityM(r.H[k], 0), "discrete")
    [] e.op = "istriv" ->
         \* the object, possibly disturbed by a little: e.fine is its distance from the trivial one, enlarged
         LET o == s[e.args[1]]  q == R(1)
             zero == \A k \in 1..Len(e.fine) : IsZeroM(e.fine[k])
         IN Must(~o.triv \/ e.eps # 0 \/ e.val, "not-recognised") \cup Must((q.d = 1 /\ zero) \/ ~e.val, "wrongly-recognised")
    [] OTHER -> {}

(* tensoring with a trivial representation *)
Neutral(tr, e, s) ==
  LET a == s[e.args[1]]  b == s[e.args[2]] IN
  IF a.triv THEN Must(SameRep(e.rep, tr[b.line].rep, Tol), "neutral-left")
  ELSE IF b.triv THEN Must(SameRep(e.rep, tr[a.line].rep, Tol), "neutral-right")
  ELSE {}

(* C08: form and content *)
Content(e, dsc, bag, known, s) ==
  IF ~known THEN {}
  ELSE IF e.kind = "gen" THEN {"not-reduced"}
  ELSE IF ~Tabulated(e.listing) THEN {"listing"}
  ELSE Must(\A k \in 1..Len(e.listing) : GroupOf(e.listing[k][1]) = dsc.g, "group")
       \cup Must(BagEq(ListingBag(e.listing), bag), "content")
       \cup Must(~BoundedRep(e.rep) \/ PartsOk(e.rep, e.parts), "listing-generates")

Boundeds(tr, e, s) == \A q \in 1..Len(e.args) : LET o == s[e.args[q]] IN ~IsHole(o) /\ BoundedRep(tr[o.line].rep)

(* kinds and labels of the results of group products of irreps *)
GpLabel(tr, e, s) ==
  LET L(q) == tr[s[e.args[q]].line].label
      irr == \A q \in 1..Len(e.args) : s[e.args[q]].dsc.kind = "irrep" /\ tr[s[e.args[q]].line].op = "load"
  IN IF ~irr THEN {}
     ELSE Must(e.kind = "irrep" /\ e.label = (IF e.op = "gp" THEN << "PROD", L(1), L(2) >> ELSE << "PROD", << "PROD", L(1), L(2) >>, L(3) >>), "irrep-of-product")

Digests(e, s) == { "digest" : k \in { k \in 1..Len(e.after) : s[e.after[k][1]].line # 0 /\ s[e.after[k][1]].dig # e.after[k][2] } }

Step(tr, k, s) ==
  LET e == tr[k] IN
  IF e.op = "begin" THEN [st |-> << >>, bad |-> {}]
  ELSE IF e.op = "skip" THEN [st |-> IF e.push THEN Append(s, Hole) ELSE s, bad |-> {}]
  ELSE IF e.exc # "" THEN
    [st |-> IF e.op \in Pushes THEN Append(s, Hole) ELSE s,
     bad |-> IF Prop \in PropsOf(e.op) \cup {"C27"} THEN Tag({"raised"}) ELSE {}]
  ELSE IF e.op = "sweep" THEN [st |-> s, bad |-> IF Prop = "C27" THEN Tag(Digests(e, s)) ELSE {}]
  ELSE IF e.op \notin Pushes THEN
    [st |-> s, bad |-> IF Prop = "C27" THEN Tag(Digests(e, s))
                       ELSE IF Prop \in PropsOf(e.op) /\ Boundeds(tr, e, s) THEN Tag(Numeric(tr, e, s)) ELSE {}]
  ELSE
    LET dsc == DscOf(e, s)
        fit == Fit(e.rep, dsc.d, dsc.n, dsc.h)
        known == Prop = "C08" /\ KnownOf(e, s)
        bag == IF known THEN BagOf(e, s) ELSE NoBag
        triv == e.op = "triv" \/ (e.op = "load" /\ IF e.label[1] = "SN" THEN e.label[2] = "triv" ELSE e.label = TrivialOf(GroupOf(e.label)))
        o == [line |-> k, dsc |-> dsc, bag |-> bag, known |-> known, dig |-> e.dig, triv |-> triv]
        num == IF ~fit THEN {"shapes"}
               ELSE IF ~FiniteRep(e.rep) THEN {"finite"}
               ELSE IF ~Boundeds(tr, e, s) THEN {}
               ELSE Numeric(tr, e, s)
        bad == IF Prop = "C27" THEN Tag(Digests(e, s))
               ELSE IF Prop \notin PropsOf(e.op) THEN {}
               ELSE IF Prop = "C08" THEN Tag(IF ~fit THEN {"shapes"} ELSE Content(e, dsc, bag, known, s))
               ELSE IF Prop = "C29" /\ e.op = "tp" THEN Tag(IF ~fit THEN {"shapes"} ELSE Neutral(tr, e, s))
               ELSE IF Prop = "C14" THEN Tag(num \cup GpLabel(tr, e, s))
               ELSE Tag(num)
    IN [st |-> Append(s, IF fit THEN o ELSE Hole), bad |-> bad]

Init == TraceInit(<< >>)
Next == TraceNext(Step)
Spec == Init /\ [][Next]_tvars
AllGroupNames == {"SU2", "SO3", "O3", "SL2C", "SO13", "SU2Real", "SU2_", "SU3", "SU4", "Z2", "SU2xZ2", "O3xSU2", "Z2xZ2xSO3", "S3", "S2", "S4", "C3"}
Required == AllGroupNames \cup
  (CASE Prop = "C07" -> {"tp", "near"}
     [] Prop = "C08" -> {"tp"}
     [] Prop = "C09" -> {"tpow"}
     [] Prop = "C10" -> {"dsum", "mul", "red", "near"}
     [] Prop = "C11" -> {"cb", "cbpair", "near"}
     [] Prop = "C12" -> {"ca", "capair", "catilt", "near"}
     [] Prop = "C13" -> {"conj", "isunit"}
     [] Prop = "C14" -> {"gp", "gp3"}
     [] Prop = "C29" -> {"triv", "istriv", "tp"}
     [] OTHER -> {})
Accepted == TraceAccepted(Required)
=============================================================================
