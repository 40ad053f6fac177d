-------------------------------- MODULE AlgTrace --------------------------------
(* C23: inference of structure constants and validity checks.                 *)
(*                                                                            *)
(* The generators are matrices over the Gaussian integers in units of 1 or of *)
(* 10^-6 (so that a deviation of one part in a million is an exact datum).    *)
(* Whether they close under commutation with real constants is decided here:  *)
(* every commutator, as a real vector, has to lie in the real span of the     *)
(* generators, i.e. must not increase the rank (computed in two prime fields).*)
(* Whether given constants fit given generators is decided by computing both  *)
(* sides of the relation in the same fields.                                  *)
EXTENDS TraceBase, Algebras

Tag(cs) == { Prop \o ":" \o c : c \in cs }
Step(tr, k, s) == LET e == tr[k] IN [st |-> s, bad |-> Tag(IF e.exc # "" THEN {"raised"} ELSE Clauses(e))]

Init == TraceInit(<< >>)
Next == TraceNext(Step)
Spec == Init /\ [][Next]_tvars
Required == {"infer", "from", "check", "triplet", "closed", "open", "complexclosed", "empty", "micro", "zeroed", "valid", "invalid", "loose", "dependent", "triplet-ok", "triplet-bad"}
Accepted == TraceAccepted(Required)
=============================================================================
