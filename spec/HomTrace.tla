------------------------------- MODULE HomTrace -------------------------------
(* C15, C16, C30: intertwiners, irreducibility, reduction, reality.           *)
(*                                                                            *)
(* Every event starts from a representation of known content (a sequence of   *)
(* <<label, multiplicity>>), built by the driver in some basis.  The contents *)
(* determine the answers: dimensions of spaces of intertwiners, the parts of  *)
(* a reduction, the Frobenius-Schur type.                                     *)
EXTENDS TraceBase, Hom

Offsets(ds) == LET F[k \in 0..Len(ds)] == IF k = 0 THEN 0 ELSE F[k - 1] + ds[k] IN F
BlockD(Ms, ds) ==
  LET off == Offsets(ds)  tot == off[Len(ds)] IN
  FR(tot, LAMBDA i :
    LET k == CHOOSE k \in 1..Len(ds) : off[k - 1] < i /\ i <= off[k]
        row == DenseRow(Ms[k].r[i - off[k - 1]], ds[k])
    IN FR(tot, LAMBDA j : IF j > off[k - 1] /\ j <= off[k] THEN row[j - off[k - 1]] ELSE Z4))

(* X Q = Q Y, logged X, Q, dense Y *)
ConjugatedM(X, Q, Y, d) ==
  LET q == Dense(Q) IN
  \A i \in 1..d : \A j \in 1..d : SmallAcc(FoldLeft(LAMBDA s, e : MsubS(s, e, Y[e[1]][j]), DotS(X.r[i], q, j), Q.r[i]), CTol)

SameRep(r, q, tol) ==
  /\ r.d = q.d /\ r.n = q.n /\ r.h = q.h /\ NearAlg(r.A, q.A, tol)
  /\ \A a \in 1..r.n : NearM(r.X[a], q.X[a], tol)
  /\ \A a \in 1..r.h : NearM(r.H[a], q.H[a], tol)

-----------------------------------------------------------------------------
HomEv(e) ==
  LET r1 == e.r1  r2 == e.r2 IN
  IF ~RepFit(r1) \/ ~RepFit(r2) THEN {"reps"}
  ELSE IF e.shape # << Len(e.W), r2.d, r1.d >> \/ \E z \in 1..Len(e.W) : ~BoundedM(e.W[z]) THEN {"shape"}
  ELSE Must(\A z \in 1..Len(e.W) : TwinesRep(e.W[z], r1, r2), "intertwine")
       \cup Must(Len(e.W) = Hom2(e.c1, e.c2), "count")
       \cup Must(Independent(e.W, e.iG), "independent")

IrrEv(e) == Must(e.answer = (Hom2(e.c, e.c) = 1), "irreducible")

(* reduction: the parts, in the order listed, with their multiplicities *)
ReduceEv(e) ==
  LET r == e.r  q == e.red
      np == Len(e.parts)
      RECURSIVE Exp(_)
      Exp(k) == IF k = 0 THEN << >> ELSE Exp(k - 1) \o [i \in 1..e.muls[k] |-> k]
      which == Exp(np)
      ds == [k \in 1..Len(which) |-> e.parts[which[k]].d]
      ok == RepFit(r) /\ (\A k \in 1..np : RepFit(e.parts[k]) /\ e.parts[k].n = r.n /\ e.parts[k].h = r.h)
            /\ Offsets(ds)[Len(ds)] = r.d /\ Len(which) > 0 /\ e.Q.ok /\ e.Q.n = r.d /\ e.Q.m = r.d /\ BoundedM(e.Q)
      got == ContentOfSeq([k \in 1..np |-> << e.labels[k], e.muls[k] >>])
  IN IF ~ok THEN {"shape"}
     ELSE Must(SameRep(r, q, CTol), "generators")
          \cup Must(InverseM(e.Q, e.iQ, r.d), "basis")
          \cup Must(/\ \A a \in 1..r.n : ConjugatedM(r.X[a], e.Q, BlockD([k \in 1..Len(which) |-> e.parts[which[k]].X[a]], ds), r.d)
                    /\ \A a \in 1..r.h : ConjugatedM(r.H[a], e.Q, BlockD([k \in 1..Len(which) |-> e.parts[which[k]].H[a]], ds), r.d), "blocks")
          \cup Must(\A k \in 1..np : RepFit(e.refs[k]) /\ Equivalent(e.parts[k], e.refs[k], e.S[k], e.iS[k]), "part")
          \cup Must(\A i, j \in 1..np : i # j => e.labels[i] # e.labels[j], "not-collected")
          \cup Must(ContentEq(got, ContentOfSeq(SplitSN(e.c))), "content")

IsRealEv(e) == Must(e.answer = (ConjL(e.label) = e.label), "self-conjugate")

MkRealEv(e) ==
  LET l == e.label IN
  IF RealityL(l) = 1
  THEN IF e.refused THEN {"refused"}
       ELSE IF ~RepFit(e.r) \/ ~RepFit(e.q) THEN {"shape"}
       ELSE Must(\A a \in 1..e.q.n : RealM(e.q.X[a]), "real")
            \cup Must(\A a \in 1..e.q.h : RealM(e.q.H[a]), "real")
            \cup Must(NearAlg(e.q.A, e.r.A, Tol), "constants")
            \cup Must(Equivalent(e.r, e.q, e.S, e.iS), "equivalent")
            \cup Must(\A a \in 1..e.q.n : AntiHermitianM(e.q.X[a]), "antisymmetric")
            \cup Must(e.q.n = 0 \/ BracketOk(e.q.X, e.q.A, e.q.d), "bracket")
  ELSE Must(e.refused, "not-refused")

Step(tr, k, s) ==
  LET e == tr[k]
      bad == IF e.exc # "" THEN {"raised"}
             ELSE CASE e.op = "hom" -> HomEv(e) [] e.op = "irr" -> IrrEv(e) [] e.op = "reduce" -> ReduceEv(e)
                    [] e.op = "isreal" -> IsRealEv(e) [] e.op = "mkreal" -> MkRealEv(e)
  IN [st |-> s, bad |-> { Prop \o ":" \o c : c \in bad }]

Init == TraceInit(0)
Next == TraceNext(Step)
G9 == {"SU2", "SO3", "O3", "SL2C", "SO13", "Z2", "SUN", "PROD", "SN", "U1", "O2", "AB", "MIX", "LF"} \cup Groups5
Required == IF Prop = "C30" THEN G9 \ {"SN"} ELSE IF Prop = "C16" THEN G9 ELSE G9 \cup {"SU2Real", "irr", "hom"}
Accepted == TraceAccepted(Required)
=============================================================================
