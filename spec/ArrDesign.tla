------------------------------- MODULE ArrDesign -------------------------------
(* Design model of the array helpers.  A state is an array of Gaussian        *)
(* integers, filled entry by entry.                                           *)
(*   Index    row-major numbering is a bijection                              *)
(*   Slices   stacking the slices along any axis gives the array back         *)
(*   Products Kronecker products, commutators and blocks obey their laws      *)
(*   Classes  unambiguous clusters are the classes of nearness                *)
EXTENDS Arrays
CONSTANTS Shapes, Vals
VARIABLES sh, d
vars == << sh, d >>
Val(v) == CASE v = 0 -> << 0, 0 >> [] v = 1 -> << 1, 0 >> [] v = 2 -> << 0, 1 >> [] v = 3 -> << 2, -1 >>
Sh(s) == CASE s = "v3" -> << 3 >> [] s = "m22" -> << 2, 2 >> [] s = "m23" -> << 2, 3 >> [] s = "m32" -> << 3, 2 >> [] s = "t122" -> << 1, 2, 2 >>
           [] s = "t221" -> << 2, 2, 1 >> [] s = "s" -> << >> [] s = "e" -> << 0, 2 >> [] s = "v4" -> << 4 >> [] s = "t212" -> << 2, 1, 2 >>
Init == \E s \in Shapes : sh = Sh(s) /\ d = << >>
Next == Len(d) < Prod(sh) /\ \E v \in Vals : d' = Append(d, Val(v)) /\ UNCHANGED sh
Spec == Init /\ [][Next]_vars
Full == Len(d) = Prod(sh)
A == [sh |-> sh, d |-> d]
Index == /\ \A q \in 0..Prod(sh) - 1 : LET ix == Unoff(sh, q) IN Off(sh, ix) = q /\ \A k \in 1..Len(sh) : ix[k] \in 0..sh[k] - 1
         /\ Full => Same(Mk(sh, LAMBDA ix : At(A, ix)), A)
Slices == Full => \A ax \in -Len(sh)..Len(sh) - 1 : LET n == sh[Axis(Len(sh), ax) + 1] IN
            n = 0 \/ Same(StackA([i \in 1..n |-> Take(A, ax, i - 1)], ax), A)
(* fixed partners *)
P2 == [sh |-> << 2, 2 >>, d |-> << << 1, 0 >>, << 0, 2 >>, << -1, 0 >>, << 0, 0 >> >>]
Q2 == [sh |-> << 2, 2 >>, d |-> << << 0, 1 >>, << 1, 1 >>, << 0, 0 >>, << 3, 0 >> >>]
MM(a, b) == Mk(<< a.sh[1], b.sh[2] >>, LAMBDA ix : FoldLeft(LAMBDA s, q : Add(s, Tms(At(a, << ix[1], q - 1 >>), At(b, << q - 1, ix[2] >>))), Z, Idx(a.sh[2])))
Neg(a) == Map1(a, LAMBDA x : Scl(-1, x))
Plus(a, b) == Map2(a, b, Add)
Zero(s) == Mk(s, LAMBDA ix : Z)
Products == (Full /\ Len(sh) = 2 /\ sh[1] > 0) =>
  /\ sh[1] = 2 => Same(MM(Kron2(P2, Q2), Kron2(A, Q2)), Kron2(MM(P2, A), MM(Q2, Q2)))
  /\ Same(Kron2(Kron2(P2, A), Q2), KronAll(<< P2, A, Q2 >>)) /\ Same(Kron2(P2, Kron2(A, Q2)), KronAll(<< P2, A, Q2 >>))
  /\ Same(Blocks(<< Blocks(<< P2, A >>, << >>), Q2 >>, << >>), Blocks(<< P2, A, Q2 >>, << >>))
  /\ sh = << 2, 2 >> => /\ Same(Comm(A, P2), Neg(Comm(P2, A))) /\ Same(Comm(A, P2), Plus(MM(A, P2), Neg(MM(P2, A))))
                        /\ Same(Plus(Comm(A, Comm(P2, Q2)), Plus(Comm(P2, Comm(Q2, A)), Comm(Q2, Comm(A, P2)))), Zero(<< 2, 2 >>))
                        /\ Same(Comm(Blocks(<< A, P2 >>, << >>), Blocks(<< Q2, A >>, << >>)), Blocks(<< Comm(A, Q2), Comm(P2, A) >>, << >>))
(* clusters *)
Near(i, j, t) == Dist2(Elem(A, i), Elem(A, j)) < t
Classes == (Full /\ Len(sh) >= 1 /\ sh[1] > 0) => \A t \in {1, 2, 3, 6} :
  LET c == Cluster([a |-> A, tol2 |-> t])  n == sh[1]
      trans == \A i, j, k \in 1..n : (Near(i, j, t) /\ Near(j, k, t)) => Near(i, k, t)
  IN /\ trans => ~c.err
     /\ (~c.err) => /\ \A i \in 1..n : c.lab[i] \in 0..c.k - 1
                    /\ \A i, j \in 1..n : (\A k \in 1..n : Near(i, k, t) = Near(j, k, t)) /\ Near(i, j, t) => c.lab[i] = c.lab[j]
                    /\ \A i, j \in 1..n : c.lab[i] = c.lab[j] => (Near(i, j, t) \/ \E k \in 1..n : Near(i, k, t) /\ Near(j, k, t))
                    /\ \A k \in 0..c.k - 1 : \E i \in 1..n : c.lab[i] = k /\ \A j \in 1..i - 1 : c.lab[j] < k
=============================================================================
