------------------------------- MODULE PermTrace -------------------------------
(* C20: permutation utilities against the symmetric group of Perms.tla.       *)
(* mem: the numbers seen so far, for the bijection between 0..n!-1 and S_n.   *)
EXTENDS TraceBase, Perms, BigNum

RangeOf(s) == { s[i] : i \in 1..Len(s) }

One(e) ==
  LET p == e.p  n == Len(p) IN
  Must(e.isperm = IsPerm(p), "is-perm")
  \cup (IF ~IsPerm(p) THEN {} ELSE
     Must(e.inverse = InverseP(p), "inverse")
     \cup Must(e.identity = IdP(n), "identity")
     \cup Must(e.sign = SignP(p), "sign")
     \cup Must(e.usign = SignP(p), "permutation-sign")
     \cup Must(RangeOf(e.cycles) = Cycles(p) /\ Len(e.cycles) = Cardinality(Cycles(p)), "cycles")
     \cup (IF n > 12 THEN {} ELSE Must(e.toint \in 0..(FactP(n) - 1), "to-int-range"))
     \cup Must(e.back = p, "from-int-to-int"))

(* a whole row of the multiplication table *)
Row(e) == Must(\A i \in 1..Len(e.qs) : e.rs[i] = ComposeP(e.p, e.qs[i]), "compose")
          \cup Must(\A i \in 1..Len(e.qs) : e.signs[i] = SignP(e.p) * SignP(e.qs[i]), "sign-homomorphism")

(* all numbers of one n *)
Numbers(e) ==
  LET n == e.n  f == FactP(n) IN
  Must(Len(e.perms) = f /\ RangeOf(e.perms) = PermsOf(n), "from-int-bijection")
  \cup Must(\A i \in 1..f : e.ints[i] = i - 1, "to-int-from-int")
  \cup Must(RangeOf(e.group) = PermsOf(n) /\ Len(e.group) = f, "group")
  \cup Must(\A i \in 1..Len(e.rand) : e.rand[i] \in PermsOf(n), "rand")

(* numbers beyond 32 bits: from_int of some numbers below n!, in increasing    *)
(* order, and to_int of the results and of other permutations                 *)
RECURSIVE BFact(_)
BFact(n) == IF n = 0 THEN BInt(1) ELSE BMul(BInt(n), BFact(n - 1))
Big(e) ==
  LET n == e.n  f == TLCEval(BFact(n)) IN
  Must(\A i \in 1..Len(e.perms) : Len(e.perms[i]) = n /\ IsPerm(e.perms[i]), "from-int-bijection")
  \cup Must(Cardinality(RangeOf(e.perms)) = Len(e.perms), "from-int-bijection")
  \cup Must(\A i \in 1..Len(e.ints) : BEq(e.ints[i], e.back[i]), "to-int-from-int")
  \cup Must(\A i \in 1..Len(e.codes) : BSign(e.codes[i]) >= 0 /\ BLt(e.codes[i], f), "to-int-range")
  \cup Must(\A i \in 1..Len(e.codes) : e.decoded[i] = e.coded[i], "from-int-to-int")

Generate(e) ==
  LET S == RangeOf(e.gens) IN
  Must(Len(e.got) = Cardinality(RangeOf(e.got)) /\ RangeOf(e.got) = Generated(S), "generated")
  \cup Must(e.isgroup, "generated-is-group")
  \cup Must(e.untouched, "argument")

GroupTest(e) == Must(e.got = IsGroupP(RangeOf(e.set)), "group-test")

Step(tr, k, s) ==
  LET e == tr[k]
      b == CASE e.exc # "" -> {"raised"}
             [] e.op = "one" -> One(e)
             [] e.op = "row" -> Row(e)
             [] e.op = "numbers" -> Numbers(e)
             [] e.op = "big" -> Big(e)
             [] e.op = "generate" -> Generate(e)
             [] e.op = "isgroup" -> GroupTest(e)
  IN [st |-> s, bad |-> { Prop \o ":" \o c : c \in b }]

Init == TraceInit(0)
Next == TraceNext(Step)
Required == {"one", "row", "numbers", "big", "generate", "isgroup", "group", "notgroup", "notperm", "n0", "n1", "n2", "n3", "n4", "n5", "n6"}
Accepted == TraceAccepted(Required)
=============================================================================
