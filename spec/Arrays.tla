------------------------------- MODULE Arrays --------------------------------
(* Array helpers on arrays of Gaussian integers (C28).                        *)
EXTENDS Integers, TLC, SequencesExt, FiniteSetsExt, Clauses

Idx(n) == [j \in 1..n |-> j]
Prod(s) == FoldLeft(LAMBDA a, x : a * x, 1, s)
Off(sh, ix) == FoldLeft(LAMBDA a, k : a * sh[k] + ix[k], 0, Idx(Len(sh)))            \* 0-based indices
Unoff(sh, q) == LET n == Len(sh) IN [k \in 1..n |-> (q \div Prod(SubSeq(sh, k + 1, n))) % sh[k]]
Mk(sh, F(_)) == LET n == Prod(sh) IN [sh |-> sh, d |-> TLCEval([q \in 1..n |-> F(Unoff(sh, q - 1))])]
At(a, ix) == a.d[Off(a.sh, ix) + 1]
Same(a, b) == a.sh = b.sh /\ Len(a.d) = Len(b.d) /\ \A q \in 1..Len(a.d) : a.d[q] = b.d[q]

Z == << 0, 0 >>
Add(a, b) == << a[1] + b[1], a[2] + b[2] >>
Scl(k, a) == << k * a[1], k * a[2] >>
Tms(a, b) == << a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1] >>

-----------------------------------------------------------------------------
(* vmap *)
Axis(n, ax) == IF ax < 0 THEN ax + n ELSE ax                   \* 0-based axis
Without(s, ax) == SubSeq(s, 1, ax) \o SubSeq(s, ax + 2, Len(s))
With(s, ax, x) == SubSeq(s, 1, ax) \o << x >> \o SubSeq(s, ax + 1, Len(s))
Take(a, ax, i) == LET x == Axis(Len(a.sh), ax) IN Mk(Without(a.sh, x), LAMBDA ix : At(a, With(ix, x, i)))
StackA(as, ax) == LET x == Axis(Len(as[1].sh) + 1, ax) IN
  Mk(With(as[1].sh, x, Len(as)), LAMBDA ix : At(as[ix[x + 1] + 1], Without(ix, x)))
Map1(a, F(_)) == [sh |-> a.sh, d |-> TLCEval([q \in 1..Len(a.d) |-> F(a.d[q])])]
Map2(a, b, F(_, _)) == [sh |-> a.sh, d |-> TLCEval([q \in 1..Len(a.d) |-> F(a.d[q], b.d[q])])]
(* the functions the harness maps, as sequences of results *)
Fun(f, xs) ==
  CASE f = "affine" -> << Map1(xs[1], LAMBDA x : Add(Scl(2, x), << 1, 0 >>)) >>
    [] f = "sum" -> << [sh |-> << >>, d |-> << FoldLeft(LAMBDA s, x : Add(s, x), Z, xs[1].d) >>] >>
    [] f = "transpose" -> << Mk(<< xs[1].sh[2], xs[1].sh[1] >>, LAMBDA ix : At(xs[1], << ix[2], ix[1] >>)) >>
    [] f = "outer" -> << Mk(xs[1].sh \o xs[2].sh, LAMBDA ix : Tms(At(xs[1], SubSeq(ix, 1, Len(xs[1].sh))), At(xs[2], SubSeq(ix, Len(xs[1].sh) + 1, Len(ix))))) >>
    [] f = "sub" -> << Map2(xs[1], xs[2], LAMBDA x, y : Add(x, Scl(-2, y))) >>
    [] f = "pair" -> << Map2(xs[1], xs[2], LAMBDA x, y : Add(x, Scl(-1, y))), Map1(xs[1], LAMBDA x : Scl(3, x)) >>
    [] f = "single" -> << Map1(xs[1], LAMBDA x : Scl(2, x)) >>
    [] f = "three" -> << Map2(Map2(xs[1], xs[2], LAMBDA x, y : Add(x, Scl(2, y))), xs[3], LAMBDA x, y : Add(x, Scl(5, y))) >>
VmapDim(e) == LET k == CHOOSE k \in 1..Len(e.args) : e.axes[k] # 99 IN e.args[k].sh[Axis(Len(e.args[k].sh), e.axes[k]) + 1]
Vmap(e) ==
  LET n == VmapDim(e)
      outs == TLCEval([i \in 1..n |-> Fun(e.fun, [k \in 1..Len(e.args) |-> IF e.axes[k] = 99 THEN e.args[k] ELSE Take(e.args[k], e.axes[k], i - 1)])])
  IN IF n = 0 THEN Must(Len(e.outs) = 1 /\ e.outs[1].sh = With(e.outshape, Axis(Len(e.outshape) + 1, e.outaxis), 0), "map-empty")
     ELSE Must(Len(e.outs) = Len(outs[1]) /\ \A r \in 1..Len(e.outs) : Same(e.outs[r], StackA([i \in 1..n |-> outs[i][r]], e.outaxis)), "map")

-----------------------------------------------------------------------------
(* matrices *)
Kron2(a, b) ==
  Mk(<< a.sh[1] * b.sh[1], a.sh[2] * b.sh[2] >>, LAMBDA ix :
     Tms(At(a, << ix[1] \div b.sh[1], ix[2] \div b.sh[2] >>), At(b, << ix[1] % b.sh[1], ix[2] % b.sh[2] >>)))
KronAll(as) == FoldLeft(LAMBDA s, a : Kron2(s, a), as[1], SubSeq(as, 2, Len(as)))

(* broadcasting of leading axes *)
Lead(a) == SubSeq(a.sh, 1, Len(a.sh) - 2)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
PadTo(s, n) == [k \in 1..n |-> IF k <= n - Len(s) THEN 1 ELSE s[k - (n - Len(s))]]
Broadcast(ss) == LET n == MaxOf({ Len(ss[k]) : k \in 1..Len(ss) })
                     ps == [k \in 1..Len(ss) |-> PadTo(ss[k], n)]
                 IN [j \in 1..n |-> LET big == { ps[k][j] : k \in 1..Len(ss) } \ {1} IN IF big = {} THEN 1 ELSE CHOOSE x \in big : TRUE]
(* entry (ix, i, j) of a with leading index ix in the broadcast shape *)
Cell(a, ix, i, j) ==
  LET l == Lead(a)  off == Len(ix) - Len(l)
  IN At(a, [k \in 1..Len(l) |-> IF l[k] = 1 THEN 0 ELSE ix[off + k]] \o << i, j >>)
RowsOf(a) == a.sh[Len(a.sh) - 1]
ColsOf(a) == a.sh[Len(a.sh)]
Sums(as, F(_)) == LET P[k \in 0..Len(as)] == IF k = 0 THEN 0 ELSE P[k - 1] + F(as[k]) IN TLCEval([k \in 0..Len(as) |-> P[k]])
Blocks(as, lead) ==
  LET ro == Sums(as, RowsOf)  co == Sums(as, ColsOf)  n == Len(as)  L == Len(lead) IN
  Mk(lead \o << ro[n], co[n] >>, LAMBDA ix :
     LET i == ix[L + 1]  j == ix[L + 2]
         hit == { k \in 1..n : ro[k - 1] <= i /\ i < ro[k] /\ co[k - 1] <= j /\ j < co[k] }
     IN IF hit = {} THEN Z ELSE LET k == CHOOSE k \in hit : TRUE IN Cell(as[k], SubSeq(ix, 1, L), i - ro[k - 1], j - co[k - 1]))
Comm(a, b) ==
  LET lead == Broadcast(<< Lead(a), Lead(b) >>)  n == RowsOf(a)  L == Len(lead) IN
  Mk(lead \o << n, n >>, LAMBDA ix :
     LET l == SubSeq(ix, 1, L)  i == ix[L + 1]  j == ix[L + 2] IN
     FoldLeft(LAMBDA s, q : Add(s, Add(Tms(Cell(a, l, i, q - 1), Cell(b, l, q - 1, j)), Scl(-1, Tms(Cell(b, l, i, q - 1), Cell(a, l, q - 1, j))))), Z, Idx(n)))

-----------------------------------------------------------------------------
(* clusters: elements are the slices along the first axis, distances squared are integers, tol2 = tol^2 *)
Elem(a, i) == LET w == Prod(SubSeq(a.sh, 2, Len(a.sh))) IN SubSeq(a.d, (i - 1) * w + 1, i * w)
Dist2(x, y) == FoldLeft(LAMBDA s, q : s + (x[q][1] - y[q][1]) * (x[q][1] - y[q][1]) + (x[q][2] - y[q][2]) * (x[q][2] - y[q][2]), 0, Idx(Len(x)))
Cluster(e) ==
  LET n == e.a.sh[1]
      near == TLCEval([i \in 1..n |-> TLCEval({ j \in 1..n : Dist2(Elem(e.a, i), Elem(e.a, j)) < e.tol2 })])
      StepC(st, i) == IF st.lab[i] # -1 \/ st.err THEN st
                      ELSE IF \E j \in near[i] : st.lab[j] # -1 THEN [st EXCEPT !.err = TRUE]
                      ELSE [st EXCEPT !.lab = TLCEval([j \in 1..n |-> IF j \in near[i] THEN st.k ELSE @[j]]), !.k = @ + 1]
  IN FoldLeft(StepC, [lab |-> [i \in 1..n |-> -1], k |-> 0, err |-> FALSE], Idx(n))
Unique(e) ==
  LET c == Cluster(e)  n == e.a.sh[1]
      w == Prod(SubSeq(e.a.sh, 2, Len(e.a.sh)))
      grp == [k \in 1..c.k |-> SelectSeq(Idx(n), LAMBDA i : c.lab[i] = k - 1)]
      Total(k) == FoldLeft(LAMBDA s, i : [q \in 1..w |-> Add(s[q], Elem(e.a, i)[q])], [q \in 1..w |-> Z], grp[k])
  IN IF c.err THEN Must(e.err = "ValueError", "ambiguous-accepted")
     ELSE IF e.err # "" THEN {"clear-refused"}
     ELSE Must(e.inverses = c.lab, "clusters")
          \cup Must(e.centers.sh = << c.k >> \o SubSeq(e.a.sh, 2, Len(e.a.sh)) /\ e.exact
                    /\ \A k \in 1..c.k : \A q \in 1..w : Scl(Len(grp[k]), e.centers.d[(k - 1) * w + q]) = Scl(840, Total(k)[q]), "means")
Eig(e) ==
  LET u == [a |-> e.val, tol2 |-> e.tol2]
      c == Cluster(u)  n == e.val.sh[1]
      grp == [k \in 1..c.k |-> SelectSeq(Idx(n), LAMBDA i : c.lab[i] = k - 1)]
  IN IF c.err THEN {}
     ELSE Must(Len(e.spaces) = c.k /\ \A k \in 1..c.k :
                 Same(e.spaces[k], Mk(<< e.vec.sh[1], Len(grp[k]) >>, LAMBDA ix : At(e.vec, << ix[1], grp[k][ix[2] + 1] - 1 >>))), "eigenspaces")

Clauses(e) ==
  CASE e.op = "vmap" -> Vmap(e)
    [] e.op = "kron" -> Must(Same(e.out, KronAll(e.args)), "kron")
    [] e.op = "dsum" -> Must(Same(e.out, Blocks(e.args, Broadcast([k \in 1..Len(e.args) |-> Lead(e.args[k])]))), "direct-sum")
    [] e.op = "blocks" -> Must(Same(e.out, Blocks(e.args, Lead(e.args[1]))), "block-diagonal")
    [] e.op = "comm" -> Must(Same(e.out, Comm(e.args[1], e.args[2])), "commutator")
    [] e.op = "unique" -> Unique(e)
    [] e.op = "eig" -> Eig(e)
    [] OTHER -> {}
=============================================================================
