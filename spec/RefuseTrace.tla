------------------------------ MODULE RefuseTrace ------------------------------
(* C31: which calls are legal.  For pairs of representations the legality is  *)
(* decided from their logged structure constants and numbers of discrete      *)
(* generators; for formulas from the terms and the indices that were given a  *)
(* representation (the group the terms generate is only needed through its    *)
(* orbits); for labels from the definition of the label sets.                 *)
EXTENDS TraceBase, Formulas

SameGroup(a, b) == a.h = b.h /\ a.A.n = b.A.n /\ NearAlg(a.A, b.A, Tol)

(* labels: numbers are logged as their doubles *)
Even(x) == (x % 2) = 0
LegalLabel(c, v) ==
  CASE c = "SU2" -> v[1] >= 0 /\ Even(v[1])
    [] c = "SU2Real" -> v[1] >= 0
    [] c = "SL2C" -> \A k \in 1..2 : v[k] >= 0 /\ Even(v[k])
    [] c = "SO13" -> (\A k \in 1..2 : v[k] >= 0 /\ Even(v[k])) /\ Even((v[1] \div 2) + (v[2] \div 2))
    [] OTHER -> LET n == Len(v) IN
         /\ n = (CASE c = "SU2_" -> 2 [] c = "SU3" -> 3 [] c = "SU4" -> 4 [] OTHER -> n)
         /\ n >= 1 /\ v[n] = 0
         /\ \A k \in 1..n : Even(v[k]) /\ v[k] >= 0
         /\ \A k \in 1..(n - 1) : v[k] >= v[k + 1]

Step(tr, k, s) ==
  LET e == tr[k] IN
  [st |-> s,
   bad |-> { Prop \o ":" \o c : c \in
     IF e.exc # "" THEN {"raised"}
     ELSE CASE e.op = "pair" ->
            IF ~e.a.A.ok \/ ~e.b.A.ok THEN {}
            ELSE IF SameGroup(e.a, e.b) THEN Must(e.generic => ~e.refused, "legal-operands-refused")
            ELSE Must(e.refused, "illegal-operands-accepted")
       [] e.op = "many" ->
            IF \A i \in 1..Len(e.reps) : SameGroup(e.reps[1], e.reps[i]) THEN Must(~e.refused, "legal-operands-refused")
            ELSE Must(e.refused, "illegal-operands-accepted")
       [] e.op = "formula" -> IF LegalFormula(e) THEN Must(~e.refused, "legal-formula-refused") ELSE Must(e.refused, "illegal-formula-accepted")
       [] e.op = "label" -> IF LegalLabel(e.cls, e.v) THEN Must(~e.refused, "legal-label-refused") ELSE Must(e.refused, "illegal-label-accepted")
       [] e.op = "shape" -> Must(e.refused = (e.rows # e.d \/ e.cols # e.d), "shape-of-basis") }]

Init == TraceInit(0)
Next == TraceNext(Step)
Spec == Init /\ [][Next]_tvars
Required == {"tp", "dsum", "red", "infer", "many", "formula", "label", "shape", "other-dim", "other-h", "other-const", "same", "broadcast",
             "not-permutation", "repeated", "unknown", "missing", "conflict", "legal",
             "SU2", "SU2Real", "SL2C", "SO13", "SUN", "SU2_", "SU3", "SU4"}
Accepted == TraceAccepted(Required)
=============================================================================
