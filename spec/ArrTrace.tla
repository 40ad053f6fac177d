-------------------------------- MODULE ArrTrace --------------------------------
(* C28: array helpers on arrays of Gaussian integers.                         *)
(*                                                                            *)
(* An array is [sh |-> shape, d |-> its entries << re, im >> in row-major     *)
(* order].  Every result is computed here entry by entry from the inputs.     *)
EXTENDS TraceBase, Arrays

Tag(cs) == { Prop \o ":" \o c : c \in cs }
Step(tr, k, s) == LET e == tr[k] IN [st |-> s, bad |-> Tag(IF e.exc # "" THEN {"raised"} ELSE Clauses(e) \cup Must(e.untouched, "argument-changed"))]
Init == TraceInit(<< >>)
Next == TraceNext(Step)
Spec == Init /\ [][Next]_tvars
Required == {"vmap", "kron", "dsum", "blocks", "comm", "unique", "eig", "empty", "emptymap", "complex", "leading", "broadcast", "negative-axis", "tuple", "none-axis", "jitter", "ambiguous", "one", "many"}
Accepted == TraceAccepted(Required)
=============================================================================
