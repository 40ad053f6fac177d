-------------------------------- MODULE BigNum --------------------------------
(* Exact integers beyond 32 bits: << sign, limbs >> with limbs in base 4096,   *)
(* least significant first, no leading zero limb; zero is << 1, <<>> >>.       *)
EXTENDS Integers, Sequences, TLC, SequencesExt

Base == 4096
RECURSIVE Trim(_)
Trim(a) == IF Len(a) = 0 \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))
At(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0
(* carries; the entries of s are non-negative *)
Norm(s) ==
  LET r == FoldLeft(LAMBDA acc, i : LET v == At(s, i) + acc[2] IN << Append(acc[1], v % Base), v \div Base >>,
                    << << >>, 0 >>, [i \in 1..(Len(s) + 3) |-> i])
  IN Trim(r[1])
NAdd(a, b) == Norm([i \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) |-> At(a, i) + At(b, i)])
RECURSIVE SumRange(_, _, _, _)
SumRange(a, b, k, i) == IF i > k THEN 0 ELSE At(a, i) * At(b, k + 1 - i) + SumRange(a, b, k, i + 1)
NMul(a, b) == IF Len(a) = 0 \/ Len(b) = 0 THEN << >> ELSE Norm(TLCEval([k \in 1..(Len(a) + Len(b)) |-> SumRange(a, b, k, 1)]))
RECURSIVE NCmpFrom(_, _, _)
NCmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE NCmpFrom(a, b, i - 1)
NCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE NCmpFrom(a, b, Len(a))
(* a >= b *)
NSub(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i : LET v == a[i] - At(b, i) - acc[2] IN << Append(acc[1], v % Base), IF v < 0 THEN 1 ELSE 0 >>,
                    << << >>, 0 >>, [i \in 1..Len(a) |-> i])
  IN Trim(r[1])

BZ(s, a) == IF Len(a) = 0 THEN << 1, << >> >> ELSE << s, a >>
BInt(k) == BZ(IF k < 0 THEN -1 ELSE 1, Norm(<< IF k < 0 THEN -k ELSE k >>))
BNeg(x) == BZ(-x[1], x[2])
BAbs(x) == << 1, x[2] >>
BAdd(x, y) ==
  IF x[1] = y[1] THEN BZ(x[1], NAdd(x[2], y[2]))
  ELSE IF NCmp(x[2], y[2]) >= 0 THEN BZ(x[1], NSub(x[2], y[2])) ELSE BZ(y[1], NSub(y[2], x[2]))
BSub(x, y) == BAdd(x, BNeg(y))
BMul(x, y) == BZ(x[1] * y[1], NMul(x[2], y[2]))
BSign(x) == IF Len(x[2]) = 0 THEN 0 ELSE x[1]
BCmp(x, y) == BSign(BSub(x, y))
BLe(x, y) == BCmp(x, y) <= 0
BLt(x, y) == BCmp(x, y) < 0
BEq(x, y) == BCmp(x, y) = 0
BOk(x) == x[1] \in {-1, 1} /\ (\A i \in 1..Len(x[2]) : x[2][i] \in 0..(Base - 1)) /\ (Len(x[2]) = 0 => x[1] = 1) /\ (Len(x[2]) = 0 \/ x[2][Len(x[2])] # 0)
RECURSIVE BPow2(_)
BPow2(k) == << 1, [i \in 1..((k \div 12) + 1) |-> IF i <= k \div 12 THEN 0 ELSE 2 ^ (k % 12)] >>
=============================================================================
