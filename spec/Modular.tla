-------------------------------- MODULE Modular --------------------------------
(* Exact linear algebra of Gaussian integer matrices modulo two primes.       *)
EXTENDS Num

-----------------------------------------------------------------------------
(* rank in the field with p elements, p = 1 mod 4, iu a square root of -1 *)
P1 == 46337
P2 == 46309
RECURSIVE PowMod(_, _, _)
PowMod(b, k, p) == IF k = 0 THEN 1
                   ELSE LET h == PowMod(b, k \div 2, p)  s == (h * h) % p IN IF k % 2 = 1 THEN (s * b) % p ELSE s
Root(p) == LET c == CHOOSE c \in 2..200 : PowMod(c, (p - 1) \div 2, p) = p - 1 IN PowMod(c, (p - 1) \div 4, p)
I1 == Root(P1)
I2 == Root(P2)
ASSUME (I1 * I1) % P1 = P1 - 1 /\ (I2 * I2) % P2 = P2 - 1

Field(r, m, p, iu) == TLCEval([i \in 1..Len(r) |-> TLCEval([j \in 1..m |-> ((r[i][j][1] % p) + ((r[i][j][2] % p) * iu)) % p])])
(* rows: sequence of functions 1..m -> field; eliminate column by column *)
Elim(rows, m, p) ==
  LET Col(st, j) ==
        LET hits == SelectSeq(Idx(Len(st.rows)), LAMBDA i : st.rows[i][j] # 0) IN
        IF Len(hits) = 0 THEN st
        ELSE LET k == hits[1]
                 pr == st.rows[k]
                 inv == PowMod(pr[j], p - 2, p)
                 rest == SelectSeq(Idx(Len(st.rows)), LAMBDA i : i # k)
                 Red(row) == IF row[j] = 0 THEN row
                             ELSE LET f == (row[j] * inv) % p IN TLCEval([c \in 1..m |-> (row[c] + ((p - f) * pr[c])) % p])
             IN [rank |-> st.rank + 1, rows |-> TLCEval([q \in 1..Len(rest) |-> Red(st.rows[rest[q]])])]
  IN FoldLeft(Col, [rank |-> 0, rows |-> rows], Idx(m)).rank
RankR(r, m) == IF Len(r) = 0 \/ m = 0 THEN 0 ELSE MaxI(Elim(Field(r, m, P1, I1), m, P1), Elim(Field(r, m, P2, I2), m, P2))
Rank(A) == RankR(A.r, A.m)
Stack(As) == FlattenSeq([k \in 1..Len(As) |-> As[k].r])

=============================================================================
