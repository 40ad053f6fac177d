------------------------------- MODULE Rationals -------------------------------
(* Best rational approximations with bounded denominators (C21).              *)
EXTENDS BigNum, Clauses

AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RDiv(a, b) == (2 * a + b) \div (2 * b)     \* a / b rounded to an integer, b > 0

(* e.n/e.d -> e.p/e.q with bound e.m *)
Best(n, d, p, q, m) ==
  Must(q >= 1 /\ q <= m /\ Gcd(AbsI(p), q) = 1, "admissible")
  \cup (IF q < 1 THEN {} ELSE
    Must(\A r \in 1..m : LET c == RDiv(n * r, d) IN AbsI(n * q - p * d) * r <= AbsI(n * r - c * d) * q, "closest")
    \cup Must(d > m \/ (p = n /\ q = d), "qualifies"))
Small(e) == UNION { Best(e.n[i], e.d[i], e.p[i], e.q[i], e.m) : i \in 1..Len(e.n) }
            \cup Must(e.shapeok, "shape")

-----------------------------------------------------------------------------
(* p/q is as close to n/d as any fraction of denominator <= m.  n, d, p, q, p1, q1 BigNum *)
Dist(n, d, p, q) == BAbs(BSub(BMul(n, q), BMul(p, d)))   \* |n/d - p/q| d q
Cert(n, d, p, q, p1, q1, m) ==
  \/ BEq(BMul(n, q), BMul(p, d))                                            \* exact
  \/ /\ BSign(q1) > 0 /\ BLe(q1, m)
     /\ BEq(BAbs(BSub(BMul(p, q1), BMul(p1, q))), BInt(1))                  \* neighbours
     /\ BLt(m, BAdd(q, q1))
     /\ BSign(BSub(BMul(n, q), BMul(p, d))) * BSign(BSub(BMul(n, q1), BMul(p1, d))) <= 0   \* x in between
     /\ BLe(BMul(Dist(n, d, p, q), q1), BMul(Dist(n, d, p1, q1), q))        \* the closer one
Large(e) ==
  IF ~(BOk(e.p) /\ BOk(e.q) /\ BSign(e.q) > 0 /\ BLe(e.q, e.m)) THEN {"admissible"}
  ELSE Must(BEq(BAdd(BMul(e.u, e.p), BMul(e.v, e.q)), BInt(1)), "reduced")
       \cup Must(Cert(e.n, e.d, e.p, e.q, e.p1, e.q1, e.m), "closest")
       \cup Must(BLt(e.m, e.d) \/ (BEq(e.p, e.n) /\ BEq(e.q, e.d)), "qualifies")

(* float x = mant / 2^k -> n/d with |x - n/d| <= 2^-48 |x| *)
CloseRel(mant, k, n, d, bits) ==   \* |mant d - n 2^k| 2^bits <= |mant| d
  BLe(BMul(BAbs(BSub(BMul(mant, d), BMul(n, BPow2(k)))), BPow2(bits)), BMul(BAbs(mant), d))
Ratio(e) ==
  IF ~(BOk(e.n) /\ BOk(e.d) /\ BSign(e.d) > 0) THEN {"denominator"}
  ELSE Must(BEq(BAdd(BMul(e.u, e.n), BMul(e.v, e.d)), BInt(1)), "reduced")
       \cup Must(IF BSign(e.x) = 0 THEN BSign(e.n) = 0 /\ BEq(e.d, BInt(1)) ELSE CloseRel(e.x, e.k, e.n, e.d, 48), "accurate")

-----------------------------------------------------------------------------
(* rounding to sign * sqrt(p/q): part x = xm/2^xk became y = ym/2^yk; p/q is the claimed square, m the bound of its denominator. *)
(* y^2 is p/q to rounding; p/q is admissible and a best approximation of x^2 (or x^2 to rounding). *)
Square(x) == BMul(x, x)
Part(t, m) ==
  IF BSign(t.xm) = 0 THEN Must(BSign(t.ym) = 0, "zero")
  ELSE IF ~(BOk(t.p) /\ BOk(t.q) /\ BSign(t.q) > 0) THEN {"square"}
  ELSE Must(BSign(t.ym) \in {0, BSign(t.xm)}, "sign")
       \cup Must(BLe(t.q, m) /\ BEq(BAdd(BMul(t.u, t.p), BMul(t.v, t.q)), BInt(1)), "admissible")
       \cup Must(IF BSign(t.p) = 0 THEN BSign(t.ym) = 0 ELSE BSign(t.ym) # 0 /\ CloseRel(Square(t.ym), 2 * t.yk, t.p, t.q, 48), "square-root")
       \cup Must(CloseRel(Square(t.xm), 2 * t.xk, t.p, t.q, 46) \/
                 Cert(Square(t.xm), BPow2(2 * t.xk), t.p, t.q, t.p1, t.q1, m), "closest")
       \* a square root of an admissible fraction is a fixed point
       \cup Must(~t.fix \/ (BEq(t.p, t.fp) /\ BEq(t.q, t.fq)), "fixed-point")
Sqrt(e) ==
  Must(e.shapeok, "shape")
  \cup Must(e.idem, "idempotent")
  \cup Must(e.realok, "real-stays-real")
  \cup UNION { Part(e.parts[i], e.m) : i \in 1..Len(e.parts) }
=============================================================================
