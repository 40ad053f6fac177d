----------------------------- MODULE SessionDesign -----------------------------
(* Design model of the session operations, on exact representations.          *)
(* A state is the newest object of a session with the step that made it; the  *)
(* object is built constructively (matrix by matrix), its description by      *)
(* Session, and TLC checks for every reachable state that                     *)
(*   IsRep      the result is a representation of the same algebra and group  *)
(*   Described  Session's description of it is right                          *)
(*   Allowed    the predicate RepOps uses on recorded results admits it       *)
(*   Sharp      and admits none of its mutations                              *)
(*   Laws       conjugation, neutral element, distributivity, associativity   *)
EXTENDS RepOps
CONSTANTS MaxDim, Depth

VARIABLES grp, op, prev, arg, cur, obj, steps
vars == << grp, op, prev, arg, cur, obj, steps >>

N4(re, im) == FromUnits(re * 524288, im * 524288)           \* halves
MatI(rows) == [n |-> Len(rows), m |-> Len(rows), ok |-> TRUE,
               r |-> SparseD([i \in 1..Len(rows) |-> [j \in 1..Len(rows) |-> N4(2 * rows[i][j], 0)]], Len(rows), Len(rows))]
MatH(rows) ==    \* rows of << re, im >> in halves
              [n |-> Len(rows), m |-> Len(rows), ok |-> TRUE,
               r |-> SparseD([i \in 1..Len(rows) |-> [j \in 1..Len(rows) |-> N4(rows[i][j][1], rows[i][j][2])]], Len(rows), Len(rows))]
AlgI(n, es) == [n |-> n, ok |-> TRUE, e |-> [k \in 1..Len(es) |-> << es[k][1], es[k][2], es[k][3], 512 * es[k][4], 0, 0, 0 >>]]
Eps == AlgI(3, << << 1,2,3,1 >>, << 2,1,3,-1 >>, << 2,3,1,1 >>, << 3,2,1,-1 >>, << 3,1,2,1 >>, << 1,3,2,-1 >> >>)
Heis == AlgI(3, << << 1,2,3,1 >>, << 2,1,3,-1 >> >>)
Rep(d, A, X, H) == [d |-> d, n |-> A.n, h |-> Len(H), A |-> A, X |-> X, H |-> H, xs |-> << A.n, d, d >>, hs |-> << Len(H), d, d >>]

VecX == << MatI(<< <<0,0,0>>, <<0,0,-1>>, <<0,1,0>> >>), MatI(<< <<0,0,1>>, <<0,0,0>>, <<-1,0,0>> >>), MatI(<< <<0,-1,0>>, <<1,0,0>>, <<0,0,0>> >>) >>
Spin == << MatH(<< << <<0,0>>, <<0,-1>> >>, << <<0,-1>>, <<0,0>> >> >>),        \* - i sigma / 2
           MatH(<< << <<0,0>>, <<-1,0>> >>, << <<1,0>>, <<0,0>> >> >>),
           MatH(<< << <<0,-1>>, <<0,0>> >>, << <<0,0>>, <<0,1>> >> >>) >>
Zero(d) == MatI([i \in 1..d |-> [j \in 1..d |-> 0]])
One(d, s) == MatI([i \in 1..d |-> [j \in 1..d |-> IF i = j THEN s ELSE 0]])
HeisX == << MatI(<< <<0,1,0>>, <<0,0,0>>, <<0,0,0>> >>), MatI(<< <<0,0,0>>, <<0,0,1>>, <<0,0,0>> >>), MatI(<< <<0,0,1>>, <<0,0,0>>, <<0,0,0>> >>) >>
PermM(p) == MatI([i \in 1..Len(p) |-> [j \in 1..Len(p) |-> IF i = p[j] THEN 1 ELSE 0]])
Rot(k) == MatI(<< << 0, -k >>, << k, 0 >> >>)

(* group, its base representations, and the words in the discrete generators that are 1 *)
Names == {"SU2", "O3", "HEIS", "S3", "U1xZ2"}
GOf(x) == CASE x = "SU2" -> << "SU2" >> [] x = "O3" -> << "O3" >> [] x = "HEIS" -> << "SO3" >> [] x = "S3" -> << "SN", 3 >>
            [] x = "U1xZ2" -> << "PROD", << "SUN", 1 >>, << "Z2" >> >>
Base(x) ==
  CASE x = "SU2" -> << Rep(2, Eps, Spin, << >>), Rep(3, Eps, VecX, << >>) >>
    [] x = "O3" -> << Rep(3, Eps, VecX, << One(3, -1) >>), Rep(1, Eps, << Zero(1), Zero(1), Zero(1) >>, << One(1, -1) >>) >>
    [] x = "HEIS" -> << Rep(3, Heis, HeisX, << >>), Rep(1, Heis, << MatI(<< << 2 >> >>), MatI(<< << -1 >> >>), Zero(1) >>, << >>) >>
    [] x = "S3" -> << Rep(2, AlgI(0, << >>), << >>, << MatI(<< <<0,1>>, <<1,0>> >>), MatI(<< <<0,-1>>, <<1,-1>> >>) >>),
                      Rep(3, AlgI(0, << >>), << >>, << PermM(<< 2, 1, 3 >>), PermM(<< 2, 3, 1 >>) >>),
                      Rep(1, AlgI(0, << >>), << >>, << One(1, -1), One(1, 1) >>) >>
    [] x = "U1xZ2" -> << Rep(2, AlgI(1, << >>), << Rot(1) >>, << One(2, -1) >>),
                         Rep(1, AlgI(1, << >>), << MatH(<< << << 0, 4 >> >> >>) >>, << One(1, 1) >>),
                         Rep(2, AlgI(1, << >>), << Rot(3) >>, << One(2, 1) >>) >>
Words(x) == CASE x \in {"O3", "U1xZ2"} -> << << 1, 1 >> >> [] x = "S3" -> << << 1, 1 >>, << 2, 2, 2 >>, << 1, 2, 1, 2 >> >> [] OTHER -> << >>

-----------------------------------------------------------------------------
(* constructions *)
Mk(a, d, A, X(_), H(_)) == Rep(d, A, FR(a.n, X), FR(a.h, H))
MkTp(a, b) == Mk(a, a.d * b.d, a.A,
  LAMBDA k : LogD(AddD(KronI2(Dense(a.X[k]), a.d, b.d), KronI1(Dense(b.X[k]), a.d, b.d), a.d * b.d, a.d * b.d), a.d * b.d, a.d * b.d),
  LAMBDA k : LogD(KronD(Dense(a.H[k]), a.d, a.d, Dense(b.H[k]), b.d, b.d), a.d * b.d, a.d * b.d))
MkDsum(a, b) == Mk(a, a.d + b.d, a.A,
  LAMBDA k : LogD(DSumD(Dense(a.X[k]), a.d, a.d, Dense(b.X[k]), b.d, b.d), a.d + b.d, a.d + b.d),
  LAMBDA k : LogD(DSumD(Dense(a.H[k]), a.d, a.d, Dense(b.H[k]), b.d, b.d), a.d + b.d, a.d + b.d))
MkConj(a) == Mk(a, a.d, a.A, LAMBDA k : LogD(ConjD(Dense(a.X[k]), a.d, a.d), a.d, a.d), LAMBDA k : LogD(ConjD(Dense(a.H[k]), a.d, a.d), a.d, a.d))
MkTriv(a) == Mk(a, 1, a.A, LAMBDA k : Zero(1), LAMBDA k : One(1, 1))
MkCb(a, q) == Mk(a, a.d, a.A, LAMBDA k : ProdM(ProdM(q[1], a.X[k]), q[2]), LAMBDA k : ProdM(ProdM(q[1], a.H[k]), q[2]))
RECURSIVE MkTpow(_, _)
MkTpow(a, n) == IF n = 0 THEN MkTriv(a) ELSE IF n = 1 THEN a ELSE MkTp(a, MkTpow(a, n - 1))
RECURSIVE MkMul(_, _)
MkMul(a, n) == IF n = 1 THEN a ELSE MkDsum(a, MkMul(a, n - 1))
MkCa(a, q) ==
  LET n == a.n  S == Dense(q[1])  iS == Dense(q[2])  al == AlgFn(a.A)
      X(i) == LogD(FoldLeft(LAMBDA D, j : AddD(D, ScaleD(S[i][j], Dense(a.X[j]), a.d, a.d), a.d, a.d), ZeroD(a.d, a.d), Idx(n)), a.d, a.d)
      c(i, j, k) == FoldLeft(LAMBDA s, p : FoldLeft(LAMBDA t, r : FoldLeft(LAMBDA u, e : AddN(u, MulN(MulN(S[i][p], S[j][r]), MulN(e[2], iS[e[1]][k]))), t, al[<< p, r >>]), s, Idx(n)), Z4, Idx(n))
      all == [ijk \in (1..n) \X (1..n) \X (1..n) |-> c(ijk[1], ijk[2], ijk[3])]
      nz == SetToSeq({ p \in DOMAIN all : all[p] # Z4 })
  IN [Mk(a, a.d, [n |-> n, ok |-> TRUE, e |-> [k \in 1..Len(nz) |-> nz[k] \o all[nz[k]]]], X, LAMBDA k : a.H[k]) EXCEPT !.n = n]
MkGp(a, b) == LET r == GpRep(a, b) IN Rep(r.d, r.A, r.X, r.H)

(* invertible matrices with their inverses, exact *)
Qs(d) ==
  LET Sh(s) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN 1 ELSE IF j = i + 1 /\ (i % 2) = 1 THEN s ELSE 0]]
      Cy == [i \in 1..d |-> [j \in 1..d |-> IF j = (i % d) + 1 THEN 1 ELSE 0]]
      iCy == [i \in 1..d |-> [j \in 1..d |-> IF i = (j % d) + 1 THEN 1 ELSE 0]]
      Im(s) == [i \in 1..d |-> [j \in 1..d |-> IF i # j THEN << 0, 0 >> ELSE IF (i % 2) = 1 THEN << 0, 2 * s >> ELSE << 2, 0 >>]]
      Half(f) == [i \in 1..d |-> [j \in 1..d |-> IF i # j THEN << 0, 0 >> ELSE IF i = 1 THEN << f, 0 >> ELSE << 2, 0 >>]]
  IN << << MatI(Sh(2)), MatI(Sh(-2)) >>, << MatI(Cy), MatI(iCy) >>, << MatH(Im(1)), MatH(Im(-1)) >>, << MatH(Half(4)), MatH(Half(1)) >> >>

-----------------------------------------------------------------------------
NoArg == [k |-> 0]
Start == [d |-> 0]
Init == /\ grp \in Names
        /\ \E i \in 1..Len(Base(grp)) : /\ cur = Base(grp)[i]
                                        /\ obj = Obj("gen", GOf(grp), "std", Base(grp)[i].d)
        /\ op = "load" /\ prev = Start /\ arg = NoArg /\ steps = 0

(* products of up to four generators stay in the range of Num *)
Light(r) == BoundedRep(r) /\ AlgMax(r.A) <= 2049 /\ (\A k \in 1..r.n : RowMax(r.X[k]) <= 8192) /\ (\A k \in 1..r.h : RowMax(r.H[k]) <= 4096)
Make(o, a, r, dsc) == /\ steps < Depth /\ r.d <= MaxDim /\ Light(r)
                      /\ op' = o /\ prev' = cur /\ arg' = a /\ cur' = r /\ obj' = dsc /\ steps' = steps + 1
                      /\ UNCHANGED grp
Live == op # "gp"          \* a product of groups ends the session
With(i) == Base(grp)[i]
BO(i) == Obj("gen", GOf(grp), "std", With(i).d)
TpAct == Live /\ \E i \in 1..Len(Base(grp)) : obj.alg = "std" /\ cur.d * With(i).d <= MaxDim /\ Make("tp", [k |-> i], MkTp(cur, With(i)), TpD(obj, BO(i)))
DsumAct == Live /\ \E i \in 1..Len(Base(grp)) : obj.alg = "std" /\ cur.d + With(i).d <= MaxDim /\ Make("dsum", [k |-> i], MkDsum(cur, With(i)), DsumD(obj, BO(i)))
TpowAct == Live /\ \E p \in 0..3 : PowI(cur.d, p) <= MaxDim /\ Make("tpow", [k |-> p], MkTpow(cur, p), [TpowD(obj, p) EXCEPT !.kind = "gen"])
MulAct == Live /\ \E m \in 1..3 : cur.d * m <= MaxDim /\ Make("mul", [k |-> m], MkMul(cur, m), [MulD(obj, m) EXCEPT !.kind = "gen"])
ConjAct == Live /\ Make("conj", NoArg, MkConj(cur), ConjD_(obj))
TrivAct == Live /\ Make("triv", NoArg, MkTriv(cur), [TrivD(obj) EXCEPT !.kind = "gen"])
CbAct == Live /\ \E q \in 1..Len(Qs(cur.d)) : Make("cb", [k |-> q], MkCb(cur, Qs(cur.d)[q]), CbD(obj))
CaAct == Live /\ cur.n > 0 /\ \E q \in 1..Len(Qs(cur.n)) : Make("ca", [k |-> q], MkCa(cur, Qs(cur.n)[q]), CaD(obj, "ca" \o ToString(q)))
GpAct == Live /\ \E y \in Names : \E i \in 1..Len(Base(y)) :
           cur.d * Base(y)[i].d <= MaxDim /\ Make("gp", [k |-> i, y |-> y], MkGp(cur, Base(y)[i]), GpD(obj, Obj("gen", GOf(y), "std", Base(y)[i].d), "gp"))
Next == TpAct \/ DsumAct \/ TpowAct \/ MulAct \/ ConjAct \/ TrivAct \/ CbAct \/ CaAct \/ GpAct
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE WordM(_, _)
WordM(H, w) == IF Len(w) = 1 THEN H[w[1]] ELSE ProdM(H[w[1]], WordM(H, SubSeq(w, 2, Len(w))))
IsRep ==
  /\ ShapesOk(cur) /\ FiniteRep(cur) /\ BoundedRep(cur)
  /\ AntiSymmetricAlg(cur.A) /\ JacobiAlg(cur.A) /\ BracketOk(cur.X, cur.A, cur.d)
  /\ (op # "gp" => \A k \in 1..Len(Words(grp)) : IsIdentityM(WordM(cur.H, Words(grp)[k]), 0))
  /\ (grp # "S3" /\ op # "gp" => \A k \in 1..cur.h : \A a \in 1..cur.n : CommuteM(cur.H[k], cur.X[a], cur.d))
  /\ (op = "gp" => \A k \in 1..prev.h : \A l \in prev.h + 1..cur.h : CommuteM(cur.H[k], cur.H[l], cur.d))
Described == Fit(cur, obj.d, obj.n, obj.h)

Pred(r) ==
  CASE op = "tp" -> TpOk(r, prev, With(arg.k))
    [] op = "dsum" -> NearAlg(r.A, prev.A, Tol) /\ BlocksOk(r, << prev, With(arg.k) >>)
    [] op = "tpow" -> TpowOk(r, prev, arg.k)
    [] op = "mul" -> NearAlg(r.A, prev.A, Tol) /\ BlocksOk(r, [q \in 1..arg.k |-> prev])
    [] op = "conj" -> NearAlg(r.A, prev.A, Tol) /\ XOk(r, prev, LAMBDA P, Q : ConjM(P, Q, 0)) /\ HOk(r, prev, LAMBDA P, Q : ConjM(P, Q, 0))
    [] op = "triv" -> NearAlg(r.A, prev.A, Tol) /\ (\A k \in 1..r.n : IsZeroM(r.X[k])) /\ (\A k \in 1..r.h : IsIdentityM(r.H[k], 0))
    [] op = "cb" -> LET Q == Qs(prev.d)[arg.k][1] IN NearAlg(r.A, prev.A, Tol) /\ Conjugated(r, Q, LAMBDA a : Dense(prev.X[a]), LAMBDA a : Dense(prev.H[a]))
    [] op = "ca" -> LET Q == Qs(prev.n)[arg.k][1] IN CaX(r, prev, Q) /\ CaA(r, prev, Q) /\ \A a \in 1..r.h : NearM(r.H[a], prev.H[a], 0)
    [] op = "gp" -> GpOk(r, prev, Base(arg.y)[arg.k])
    [] OTHER -> TRUE
Allowed == Pred(cur)

(* one entry changed by 1/256, an exchanged factor, a transposed matrix, a sign *)
Bump(M, i, j, im) == LET D == Dense(M) IN LogD([D EXCEPT ![i][j] = AddN(@, IF im THEN FromUnits(0, 4096) ELSE FromUnits(4096, 0))], M.n, M.m)
Mutants ==
  LET d == cur.d
      bx == { [cur EXCEPT !.X[k] = Bump(cur.X[k], i, j, b)] : k \in {1, cur.n} \cap (1..cur.n), i \in {1, d}, j \in {1, d}, b \in BOOLEAN }
      bh == { [cur EXCEPT !.H[k] = Bump(cur.H[k], i, j, b)] : k \in {1, cur.h} \cap (1..cur.h), i \in {1, d}, j \in {1, d}, b \in BOOLEAN }
      tr == IF cur.n = 0 THEN {} ELSE { [cur EXCEPT !.X = [k \in 1..cur.n |-> LogD(TransD(Dense(cur.X[k]), d, d), d, d)]] }
      ng == IF cur.n = 0 THEN {} ELSE { [cur EXCEPT !.X[1] = LogD(SubD(ZeroD(d, d), Dense(cur.X[1]), d, d), d, d)] }
      al == IF cur.n = 0 \/ op = "gp" THEN {} ELSE { [cur EXCEPT !.A = [@ EXCEPT !.e = Append(@, << 1, 1, 1, 512, 0, 0, 0 >>)]] }
      sw == IF op = "tp" THEN { MkTp(With(arg.k), prev) } ELSE IF op = "dsum" THEN { MkDsum(With(arg.k), prev) } ELSE {}
  IN bx \cup bh \cup tr \cup ng \cup al \cup sw
Same(r, q) == r.d = q.d /\ (\A k \in 1..r.n : r.X[k].r = q.X[k].r) /\ (\A k \in 1..r.h : r.H[k].r = q.H[k].r) /\ r.A.e = q.A.e
Sharp == op = "load" \/ \A r \in Mutants : Same(r, cur) \/ ~Pred(r)

Eqv(r, q) == Len(r.X) = Len(q.X) /\ SameRep(r, q, 0)
Laws ==
  op # "gp" =>
    LET t == MkTriv(cur) IN
    /\ Eqv(MkConj(MkConj(cur)), cur) /\ Eqv(MkTp(cur, t), cur) /\ Eqv(MkTp(t, cur), cur)
    /\ (op = "tp" => LET b == With(arg.k) IN
          /\ Eqv(MkConj(cur), MkTp(MkConj(prev), MkConj(b)))
          /\ (cur.d * b.d <= MaxDim => Eqv(MkTp(cur, b), MkTp(prev, MkTp(b, b))))
          /\ (2 * cur.d <= MaxDim => Eqv(MkTp(MkDsum(prev, prev), b), MkDsum(cur, cur))))
    /\ (op = "cb" => LET q == Qs(prev.d)[arg.k] IN Eqv(MkCb(cur, << q[2], q[1] >>), prev))
    /\ (op = "ca" => LET q == Qs(prev.n)[arg.k] IN Eqv(MkCa(cur, << q[2], q[1] >>), prev) /\ ((\A i \in 1..prev.n : RealM(q[1])) => Eqv(MkConj(cur), MkCa(MkConj(prev), q))))
    /\ (op = "dsum" => Eqv(MkConj(cur), MkDsum(MkConj(prev), MkConj(With(arg.k)))))
=============================================================================
