-------------------------------- MODULE LinTrace --------------------------------
(* C22: orthogonalisation, null spaces, basis extension and intersection.     *)
(*                                                                            *)
(* The inputs are matrices over the Gaussian integers, logged exactly as      *)
(* [n, m, r |-> rows of << re, im >>].  Their ranks - which fix every         *)
(* dimension the tools must return - are computed here by elimination in two  *)
(* prime fields (a modular rank never exceeds the rank; the larger of the two *)
(* is used).  The outputs are logged in fixed point; that they are            *)
(* orthonormal and lie in the right subspace is recomputed from the log.      *)
EXTENDS TraceBase, LinAlg

Tag(cs) == { Prop \o ":" \o c : c \in cs }
Step(tr, k, s) == LET e == tr[k] IN [st |-> s, bad |-> Tag(IF e.exc # "" THEN {"raised"} ELSE Clauses(e))]

Init == TraceInit(<< >>)
Next == TraceNext(Step)
Spec == Init /\ [][Next]_tvars
Required == {"gs", "ext", "ns", "sns", "bi", "icb", "complex", "real", "deficient", "full", "zero", "refused", "empty", "tensor", "trivial-meet", "meet", "rounded"}
Accepted == TraceAccepted(Required)
=============================================================================
