-------------------------------- MODULE GTTrace --------------------------------
(* C26: the Gelfand-Tsetlin basis of the irreps of SU(N).                     *)
(*                                                                            *)
(* A pattern is a sequence of rows, the first one of length N being the       *)
(* highest weight, each next row one shorter and interleaving the previous.   *)
(* The set of patterns, weights and the squares of the ladder coefficients    *)
(* are computed here; the ladder matrices are logged in fixed point.          *)
EXTENDS TraceBase, Modular, Patterns

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
(* units of 2^-20 of the fraction a / b, 0 <= a, 0 < b <= 10^6 *)
FracUnits(a, b) ==
  LET q == a \div b  r == a % b  t == r * 1024 IN q * 1048576 + (t \div b) * 1024 + ((t % b) * 1024) \div b
SquareIs(x, num, den) ==       \* x real, x >= 0, x^2 = num/den
  LET s == IF den < 0 THEN -1 ELSE 1
      g == Gcd(AbsI(num), AbsI(den))
      a == (s * num) \div g  b == (s * den) \div g
  IN /\ ImU(x) = 0 /\ ReU(x) >= 0 /\ a >= 0 /\ b <= 1000000
     /\ SmallI(UnitsRe(Mac(Acc0, x, x)) - FracUnits(a, b), Tol)

(* product of logged matrices, as dense *)
DP(A, B, d) == MulSD(A.r, d, Dense(B), d)
CommD(A, B, d) == SubD(DP(A, B, d), DP(B, A, d), d, d)
LogD(D, d) == [n |-> d, m |-> d, r |-> SparseD(D, d, d), ok |-> TRUE]
SmallD(D, d, tol) == \A i, j \in 1..d : SmallI(ReU(D[i][j]), tol) /\ SmallI(ImU(D[i][j]), tol)

Bounds(e) == \A l \in 1..Len(e.up) : BoundedM(e.up[l]) /\ BoundedM(e.down[l]) /\ BoundedM(e.z[l])
Ladders(e) ==
  LET S == e.S  n == Len(S)  d == Len(e.list)
      U(l) == e.up[l]  D(l) == e.down[l]
      dn == TLCEval([l \in 1..(n - 1) |-> TLCEval(Dense(D(l)))])
      RECURSIVE Find(_, _)
      Find(M, i) == IF i > d THEN 0 ELSE IF e.list[i] = M THEN i ELSE Find(M, i + 1)
      Expected(l, m) ==    \* the non-zero entries of column m of J-(l): set of <<row, numerator, denominator>>
        LET M == e.list[m] IN
        { << Find(Bump(M, l + 1, k, -1), 1), Num2(M, l + 1, k), Den2(M, l + 1, k) >> :
            k \in { k \in 1..(n - l) : Interleaves(Bump(M, l + 1, k, -1)) } }
  IN IF ~(e.shape = << n - 1, d, d >> /\ \A l \in 1..(n - 1) : U(l).ok /\ D(l).ok /\ e.z[l].ok) \/ ~Bounds(e) THEN {"ladder-shapes"}
     ELSE Must(\A l \in 1..(n - 1) : \A m \in 1..d : LET M == TwiceZ(e.list[m]) IN
                 \A j \in 1..d : NearN(Dense(e.z[l])[m][j], IF j = m THEN << 256 * M[l], 0, 0, 0 >> ELSE Z4, 0), "weight-operator")
          \cup Must(\A l \in 1..(n - 1) : NearDM(TransD(Dense(U(l)), d, d), D(l), d, d, 1), "transposed")
          \cup Must(\A l \in 1..(n - 1) : \A m \in 1..d :
                 LET ex == Expected(l, m)
                     rows == { x[1] : x \in ex }
                 IN /\ \A x \in ex : x[1] # 0 /\ SquareIs(dn[l][x[1]][m], x[2], x[3])
                    /\ \A j \in (1..d) \ rows : dn[l][j][m] = Z4, "coefficients")
          \cup Must(\A l \in 1..(n - 1) :
                 LET C == CommD(U(l), D(l), d)  Z == Dense(e.z[l]) IN \A i, j \in 1..d : NearN(C[i][j], << 2 * Z[i][j][1], 2 * Z[i][j][2], 0, 0 >>, Tol), "su2")
          \cup Must(\A k, l \in 1..(n - 1) : k = l \/ CommuteM(U(k), D(l), d), "independent-ladders")
          \cup Must(d > e.serre \/ \A k, l \in 1..(n - 1) :
                 IF k - l \in {1, -1} THEN SmallD(CommD(U(k), LogD(CommD(U(k), U(l), d), d), d), d, 4 * Tol)
                 ELSE k = l \/ CommuteM(U(k), U(l), d), "serre")

ModLimbs(l, p) == FoldLeft(LAMBDA s, x : (s * 32768 + x) % p, 0, l)
WeylA(e, p) ==
  LET n == Len(e.S)
      prs == SetToSeq({ q \in (1..n) \X (1..n) : q[1] < q[2] })
      num == FoldLeft(LAMBDA s, q : (s * (e.S[q[1]] - e.S[q[2]] + q[2] - q[1])) % p, 1, prs)
      den == FoldLeft(LAMBDA s, q : (s * (q[2] - q[1])) % p, 1, prs)
  IN (ModLimbs(e.dim, p) * den) % p = num

Clauses(e) ==
  CASE e.op = "patterns" ->
         LET P == Patterns(e.S)  d == Len(e.list) IN
         Must(d = Cardinality(P) /\ ToSet(e.list) = P, "patterns")
         \cup Must(e.dim = d, "dimension")
         \cup Must(e.byindex = e.list, "index-to-pattern")
         \cup Must(e.index = [i \in 1..d |-> i - 1], "pattern-to-index")
         \cup Must(\A i \in 1..d : e.pw[i] = PWeight(e.list[i]), "pattern-weight")
         \cup Must(\A i \in 1..d : e.zw2[i] = TwiceZ(e.list[i]), "z-weight")
         \cup Must(\A i \in 1..d : e.valid[i], "valid-pattern")
         \cup Must(ToSet(e.rows) = RowsBelow(e.S) \/ Len(e.S) = 1, "next-rows")
    [] e.op = "valid" -> Must(e.val = (Interleaves(e.M) /\ (Len(e.M) = 1 \/ NonNegative(e.M))), "validity")
    [] e.op = "ladders" -> Ladders(e)
    [] e.op = "dim" -> Must(WeylA(e, P1) /\ WeylA(e, P2), "dimension-formula")
    [] OTHER -> {}
Tag(cs) == { Prop \o ":" \o c : c \in cs }
Step(tr, k, s) == LET e == tr[k] IN [st |-> s, bad |-> Tag(IF e.exc # "" THEN {"raised"} ELSE Clauses(e))]
Init == TraceInit(<< >>)
Next == TraceNext(Step)
Spec == Init /\ [][Next]_tvars
Required == {"patterns", "valid", "ladders", "dim", "N1", "N2", "N3", "N4", "N5", "notvalid", "shifted", "degenerate", "ladders2", "ladders3", "ladders4", "ladders5", "serre"}
Accepted == TraceAccepted(Required)
=============================================================================
