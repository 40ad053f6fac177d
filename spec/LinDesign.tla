------------------------------- MODULE LinDesign -------------------------------
(* Design model of the subspace tools.  A state is a Gaussian integer matrix  *)
(* obtained from the first rk rows of an orthogonal frame (whose norms are    *)
(* squares) by row operations and repeated rows, so that its row space and    *)
(* null space are known exactly.                                              *)
(*   Ranks    Rank finds rk                                                   *)
(*   Accepts  the frame is orthonormal, spans the rows, its conjugated rest   *)
(*            spans the null space                                            *)
(*   Sharp    missing, extra, unnormalised, unconjugated and foreign rows are *)
(*            rejected                                                        *)
EXTENDS LinAlg
CONSTANTS MaxSteps

VARIABLES fr, rk, A, steps
vars == << fr, rk, A, steps >>
G(x) == << x, 0 >>
GI(x) == << 0, x >>
(* frames: rows with their norm *)
Frames == <<
  [m |-> 2, w |-> << 1, 1 >>, r |-> << << G(1), G(0) >>, << G(0), G(1) >> >>],
  [m |-> 2, w |-> << 5, 5 >>, r |-> << << G(3), GI(4) >>, << GI(4), G(3) >> >>],
  [m |-> 3, w |-> << 5, 1, 5 >>, r |-> << << G(3), G(0), G(4) >>, << G(0), GI(1), G(0) >>, << G(-4), G(0), G(3) >> >>],
  [m |-> 3, w |-> << 3, 3, 3 >>, r |-> << << G(1), G(2), G(2) >>, << G(2), G(1), G(-2) >>, << G(2), G(-2), G(1) >> >>],
  [m |-> 3, w |-> << 3, 3, 3 >>, r |-> << << G(1), GI(2), G(2) >>, << G(2), GI(1), G(-2) >>, << G(2), GI(-2), G(1) >> >>] >>
F == Frames[fr]
CMul(a, b) == << a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1] >>
CAdd(a, b) == << a[1] + b[1], a[2] + b[2] >>
Axpy(c, x, y) == [j \in 1..Len(x) |-> CAdd(CMul(c, x[j]), y[j])]
Init == /\ fr \in 1..Len(Frames) /\ rk \in 0..Frames[fr].m /\ steps = 0
        /\ A = SubSeq(Frames[fr].r, 1, rk)
Small_(r) == \A i \in 1..Len(r) : \A j \in 1..Len(r[i]) : AbsI(r[i][j][1]) <= 12 /\ AbsI(r[i][j][2]) <= 12
Next == /\ steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED << fr, rk >>
        /\ \/ \E a, b \in 1..Len(A), c \in { G(1), GI(-1), << 1, 1 >> } : a # b /\ A' = [A EXCEPT ![a] = Axpy(c, A[b], @)]
           \/ \E a \in 1..Len(A), c \in { G(0), GI(1) } : Len(A) < 5 /\ A' = Append(A, Axpy(c, A[a], [j \in 1..F.m |-> G(0)]))
           \/ \E a, b \in 1..Len(A) : a < b /\ A' = [A EXCEPT ![a] = A[b], ![b] = A[a]]
        /\ Small_(A')
Spec == Init /\ [][Next]_vars

(* frame rows as logged matrices *)
Num_(v, w) == FromUnits((1048576 * v[1]) \div w, (1048576 * v[2]) \div w)
Row(k, conj) == LET f == TLCEval([j \in 1..F.m |-> LET x == Num_(F.r[k][j], F.w[k]) IN IF conj THEN ConjN(x) ELSE x]) IN SparseRow(f, F.m)
Lg(rows) == [n |-> Len(rows), m |-> F.m, ok |-> TRUE, r |-> rows]
Head_ == Lg([k \in 1..rk |-> Row(k, FALSE)])
Null == Lg([k \in 1..(F.m - rk) |-> Row(rk + k, TRUE)])
All == Lg([k \in 1..F.m |-> Row(k, FALSE)])
Mat == [n |-> Len(A), m |-> F.m, r |-> A]
Ranks == Rank(Mat) = rk
Accepts == /\ Orthonormal(Head_) /\ Orthonormal(Null) /\ Orthonormal(All)
           /\ InSpan(A, Head_, F.m) /\ InSpan(A, All, F.m) /\ NullOk(Mat, Null) = {}
           /\ Annihilated(A, Lg([k \in 1..(F.m - rk) |-> Row(rk + k, FALSE)]), TRUE)
Cut(M, k) == [M EXCEPT !.n = @ - 1, !.r = SubSeq(M.r, 1, k - 1) \o SubSeq(M.r, k + 1, M.n)]
Twice(M, k) == [M EXCEPT !.r[k] = [q \in 1..Len(@) |-> << @[q][1], 2 * @[q][2], 2 * @[q][3], 2 * @[q][4], 2 * @[q][5] >>]]
Swap(M, k, row) == [M EXCEPT !.r[k] = row]
Sharp ==
  /\ \A k \in 1..Null.n : /\ NullOk(Mat, Cut(Null, k)) # {} /\ NullOk(Mat, Twice(Null, k)) # {}
                          /\ \A q \in 1..rk : NullOk(Mat, Swap(Null, k, Row(q, TRUE))) # {}
                          /\ \A q \in 1..Null.n : q = k \/ NullOk(Mat, Swap(Null, k, Null.r[q])) # {}
  /\ (fr \in {2, 5} /\ rk \in 1..(F.m - 1)) => NullOk(Mat, Lg([k \in 1..(F.m - rk) |-> Row(rk + k, FALSE)])) # {}
  /\ \A k \in 1..rk : /\ ~InSpan(A, Cut(Head_, k), F.m) /\ ~Orthonormal(Twice(Head_, k))
                      /\ \A q \in 1..Null.n : ~InSpan(A, Swap(Head_, k, Row(rk + q, FALSE)), F.m)
=============================================================================
