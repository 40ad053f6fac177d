--------------------------------- MODULE Num ---------------------------------
(* Fixed-point complex arithmetic on 32-bit TLC integers.                     *)
(*                                                                            *)
(* A real x is logged as two limbs  h, l  with  x ~ (h*2^11 + l) / 2^20,      *)
(* l in -1024..1023.  A complex number is <<rh, rl, ih, il>>.  Integers n are *)
(* represented exactly (h = 512 n, l = 0) and integer arithmetic in this      *)
(* module is exact.  Sums of products are kept in six accumulators            *)
(* <<HH, HL, LL>> (re, im) and turned into "units" of 2^-20 at the end.       *)
(*                                                                            *)
(* Every operand has to satisfy  Bounded  (entries <= 32, row sums <= 64),    *)
(* which keeps all accumulators below 2^31; operators that multiply return    *)
(* saturated entries when a result is larger, so that no value of the         *)
(* implementation, however wrong, makes TLC overflow.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Tol == 64          \* units of 2^-20, i.e. 6.1e-5
Z4  == <<0, 0, 0, 0>>
One4 == <<512, 0, 0, 0>>
IntNum(n) == <<512 * n, 0, 0, 0>>
Acc0 == <<0, 0, 0, 0, 0, 0>>

AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

(* a is <<rh,rl,ih,il>>, b too *)
Mac(s, a, b) ==
  << s[1] + a[1]*b[1] - a[3]*b[3],
     s[2] + a[1]*b[2] + a[2]*b[1] - a[3]*b[4] - a[4]*b[3],
     s[3] + a[2]*b[2] - a[4]*b[4],
     s[4] + a[1]*b[3] + a[3]*b[1],
     s[5] + a[1]*b[4] + a[2]*b[3] + a[3]*b[2] + a[4]*b[1],
     s[6] + a[2]*b[4] + a[4]*b[2] >>

Msub(s, a, b) ==
  << s[1] - a[1]*b[1] + a[3]*b[3],
     s[2] - a[1]*b[2] - a[2]*b[1] + a[3]*b[4] + a[4]*b[3],
     s[3] - a[2]*b[2] + a[4]*b[4],
     s[4] - a[1]*b[3] - a[3]*b[1],
     s[5] - a[1]*b[4] - a[2]*b[3] - a[3]*b[2] - a[4]*b[1],
     s[6] - a[2]*b[4] - a[4]*b[2] >>

(* the same with a sparse entry e = <<col, rh, rl, ih, il>> as first factor *)
MacS(s, e, b) ==
  << s[1] + e[2]*b[1] - e[4]*b[3],
     s[2] + e[2]*b[2] + e[3]*b[1] - e[4]*b[4] - e[5]*b[3],
     s[3] + e[3]*b[2] - e[5]*b[4],
     s[4] + e[2]*b[3] + e[4]*b[1],
     s[5] + e[2]*b[4] + e[3]*b[3] + e[4]*b[2] + e[5]*b[1],
     s[6] + e[3]*b[4] + e[5]*b[2] >>

MsubS(s, e, b) ==
  << s[1] - e[2]*b[1] + e[4]*b[3],
     s[2] - e[2]*b[2] - e[3]*b[1] + e[4]*b[4] + e[5]*b[3],
     s[3] - e[3]*b[2] + e[5]*b[4],
     s[4] - e[2]*b[3] - e[4]*b[1],
     s[5] - e[2]*b[4] - e[3]*b[3] - e[4]*b[2] - e[5]*b[1],
     s[6] - e[3]*b[4] - e[5]*b[2] >>

RD(x, k) == (x + (k \div 2)) \div k
Sat(x) == IF x > 536870000 THEN 536870000 ELSE IF x < -536870000 THEN -536870000 ELSE x
UnitsRe(s) == Sat(s[1]) * 4 + RD(s[2], 512) + RD(s[3], 1048576)
UnitsIm(s) == Sat(s[4]) * 4 + RD(s[5], 512) + RD(s[6], 1048576)
SmallI(u, tol) == u <= tol /\ -tol <= u
SmallAcc(s, tol) == SmallI(UnitsRe(s), tol) /\ SmallI(UnitsIm(s), tol)
Small(s) == SmallAcc(s, Tol)

(* limbs of a number of units *)
HiOf(u) == (u + 1024) \div 2048
LoOf(u) == u - 2048 * HiOf(u)
FromUnits(re, im) == << HiOf(re), LoOf(re), HiOf(im), LoOf(im) >>
Clamp(u) == IF u > 33554432 THEN 33554432 ELSE IF u < -33554432 THEN -33554432 ELSE u  \* |x| <= 32
FromAcc(s) == FromUnits(Clamp(UnitsRe(s)), Clamp(UnitsIm(s)))
ReU(a) == a[1] * 2048 + a[2]     \* units of a bounded number
ImU(a) == a[3] * 2048 + a[4]
AddN(a, b) == FromUnits(Clamp(ReU(a) + ReU(b)), Clamp(ImU(a) + ImU(b)))
SubN(a, b) == FromUnits(Clamp(ReU(a) - ReU(b)), Clamp(ImU(a) - ImU(b)))
NegN(a) == << -a[1], -a[2], -a[3], -a[4] >>
ConjN(a) == << a[1], a[2], -a[3], -a[4] >>
ScaleIntN(k, a) == FromUnits(Clamp(k * ReU(a)), Clamp(k * ImU(a)))
MulN(a, b) == FromAcc(Mac(Acc0, a, b))
NearN(a, b, tol) == SmallI(ReU(a) - ReU(b), tol) /\ SmallI(ImU(a) - ImU(b), tol)
IsZeroN(a) == a = Z4

-----------------------------------------------------------------------------
(* Matrices.  A dense matrix is a function of a function of numbers, with its *)
(* number of columns carried separately when it may be empty.                 *)
(* From the log: [n |-> rows, m |-> columns, r |-> sparse rows].              *)

FR(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])

DenseRow(row, m) ==
  IF Len(row) = 0 THEN FR(m, LAMBDA j : Z4)
  ELSE LET f == FoldLeft(LAMBDA acc, e : [acc EXCEPT ![e[1]] = << e[2], e[3], e[4], e[5] >>],
                         TLCEval([j \in 1..m |-> Z4]), row) IN TLCEval(f)
Dense(M) == FR(M.n, LAMBDA i : DenseRow(M.r[i], M.m))

RowL1(row) == FoldLeft(LAMBDA s, e : s + AbsI(e[2]) + AbsI(e[4]), 0, row)
WellFormed(M, n, m) == /\ M.n = n /\ M.m = m /\ M.ok
BoundedM(M) ==
  /\ M.ok
  /\ \A i \in 1..M.n : /\ \A k \in 1..Len(M.r[i]) : AbsI(M.r[i][k][2]) <= 16384 /\ AbsI(M.r[i][k][4]) <= 16384
                       /\ RowL1(M.r[i]) <= 32768
ColL1Ok(M) ==
  LET c == FoldLeft(LAMBDA acc, row : FoldLeft(LAMBDA a, e : [a EXCEPT ![e[1]] = @ + AbsI(e[2]) + AbsI(e[4])], acc, row),
                    TLCEval([j \in 1..M.m |-> 0]), M.r)
  IN M.n = 0 \/ \A j \in 1..M.m : c[j] <= 32768

DRowOk(f, m) == /\ \A j \in 1..m : AbsI(f[j][1]) <= 16384 /\ AbsI(f[j][3]) <= 16384
                /\ FoldLeft(LAMBDA s, j : s + AbsI(f[j][1]) + AbsI(f[j][3]), 0, [j \in 1..m |-> j]) <= 32768
BoundedD(D, n, m) == \A i \in 1..n : DRowOk(D[i], m)

Idx(n) == TLCEval([j \in 1..n |-> j])
SparseRow(f, m) ==
  LET nz == SelectSeq(Idx(m), LAMBDA j : f[j] # Z4)
  IN TLCEval([k \in 1..Len(nz) |-> << nz[k], f[nz[k]][1], f[nz[k]][2], f[nz[k]][3], f[nz[k]][4] >>])
SparseD(D, n, m) == FR(n, LAMBDA i : SparseRow(D[i], m))

(* rows of (sparse A) * (dense B): accumulators / numbers *)
DotS(row, B, j) == FoldLeft(LAMBDA s, e : MacS(s, e, B[e[1]][j]), Acc0, row)
DotSFrom(s0, row, B, j) == FoldLeft(LAMBDA s, e : MacS(s, e, B[e[1]][j]), s0, row)
DotSSub(s0, row, B, j) == FoldLeft(LAMBDA s, e : MsubS(s, e, B[e[1]][j]), s0, row)

(* S sparse n rows, B dense with mB columns -> dense n x mB *)
MulSD(S, n, B, mB) == FR(n, LAMBDA i : FR(mB, LAMBDA j : FromAcc(DotS(S[i], B, j))))
MulDD(A, n, k, B, m) == MulSD(SparseD(A, n, k), n, B, m)

IdD(n) == FR(n, LAMBDA i : FR(n, LAMBDA j : IF i = j THEN One4 ELSE Z4))
ZeroD(n, m) == FR(n, LAMBDA i : FR(m, LAMBDA j : Z4))
AddD(A, B, n, m) == FR(n, LAMBDA i : FR(m, LAMBDA j : AddN(A[i][j], B[i][j])))
SubD(A, B, n, m) == FR(n, LAMBDA i : FR(m, LAMBDA j : SubN(A[i][j], B[i][j])))
ConjD(A, n, m) == FR(n, LAMBDA i : FR(m, LAMBDA j : ConjN(A[i][j])))
TransD(A, n, m) == FR(m, LAMBDA j : FR(n, LAMBDA i : A[i][j]))
DagD(A, n, m) == FR(m, LAMBDA j : FR(n, LAMBDA i : ConjN(A[i][j])))
ScaleD(c, A, n, m) == FR(n, LAMBDA i : FR(m, LAMBDA j : MulN(c, A[i][j])))
NearD(A, B, n, m, tol) == \A i \in 1..n : \A j \in 1..m : NearN(A[i][j], B[i][j], tol)
IsIdD(A, n, tol) == \A i \in 1..n : \A j \in 1..n : NearN(A[i][j], IF i = j THEN One4 ELSE Z4, tol)
RealD(A, n, m, tol) == \A i \in 1..n : \A j \in 1..m : SmallI(ImU(A[i][j]), tol)

(* Kronecker product of dense matrices, first factor slow *)
KronD(A, n1, m1, B, n2, m2) ==
  FR(n1 * n2, LAMBDA i : LET i1 == ((i - 1) \div n2) + 1  i2 == ((i - 1) % n2) + 1
     IN FR(m1 * m2, LAMBDA j : LET j1 == ((j - 1) \div m2) + 1  j2 == ((j - 1) % m2) + 1
        IN IF A[i1][j1] = Z4 \/ B[i2][j2] = Z4 THEN Z4 ELSE MulN(A[i1][j1], B[i2][j2])))
(* A (x) 1 and 1 (x) B *)
KronI2(A, n1, n2) ==
  FR(n1 * n2, LAMBDA i : LET i1 == ((i - 1) \div n2) + 1  i2 == ((i - 1) % n2) + 1
     IN FR(n1 * n2, LAMBDA j : LET j1 == ((j - 1) \div n2) + 1  j2 == ((j - 1) % n2) + 1
        IN IF i2 = j2 THEN A[i1][j1] ELSE Z4))
KronI1(B, n1, n2) ==
  FR(n1 * n2, LAMBDA i : LET i1 == ((i - 1) \div n2) + 1  i2 == ((i - 1) % n2) + 1
     IN FR(n1 * n2, LAMBDA j : LET j1 == ((j - 1) \div n2) + 1  j2 == ((j - 1) % n2) + 1
        IN IF i1 = j1 THEN B[i2][j2] ELSE Z4))
DSumD(A, n1, m1, B, n2, m2) ==
  FR(n1 + n2, LAMBDA i : FR(m1 + m2, LAMBDA j :
     IF i <= n1 /\ j <= m1 THEN A[i][j]
     ELSE IF i > n1 /\ j > m1 THEN B[i - n1][j - m1] ELSE Z4))
TraceAcc(A, n) == FoldLeft(LAMBDA s, i : << s[1] + ReU(A[i][i]), s[2] + ImU(A[i][i]) >>, << 0, 0 >>, Idx(n))

(* C = A B checked without building the product: residual of A B - C *)
IsProduct(S, n, B, m, C, tol) ==
  \A i \in 1..n : \A j \in 1..m :
    LET a == DotS(S[i], B, j) IN SmallI(UnitsRe(a) - ReU(C[i][j]), tol) /\ SmallI(UnitsIm(a) - ImU(C[i][j]), tol)
=============================================================================
