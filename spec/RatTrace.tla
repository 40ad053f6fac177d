------------------------------- MODULE RatTrace -------------------------------
(* C21: rational rounding.                                                    *)
(*                                                                            *)
(* Small fractions are decided by enumerating every admissible fraction.      *)
(* Large ones carry a certificate: fractions with a denominator within the    *)
(* bound that are nearest to x from both sides are Farey neighbours           *)
(* (|p q' - p' q| = 1 and q + q' > bound).  A float is logged exactly as m/2^k *)
(* with integers of BigNum.                                                   *)
EXTENDS TraceBase, Rationals

Step(tr, k, s) ==
  LET e == tr[k]
      b == CASE e.exc # "" -> {"raised"}
             [] e.op = "small" -> Small(e)
             [] e.op = "large" -> Large(e)
             [] e.op = "ratio" -> Ratio(e)
             [] e.op = "sqrt" -> Sqrt(e)
             [] e.op = "sym" -> Sqrt(e)
  IN [st |-> s, bad |-> { Prop \o ":" \o c : c \in b }]

Init == TraceInit(0)
Next == TraceNext(Step)
Required == {"small", "large", "ratio", "sqrt", "sym", "scalar", "array", "matrix", "complex", "real", "zero", "negative", "equal", "tie", "empty"}
Accepted == TraceAccepted(Required)
=============================================================================
