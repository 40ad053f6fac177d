------------------------------ MODULE LabelTrace ------------------------------
(* C06 (and the label part of C29): enumeration, order and textual forms of   *)
(* irrep labels.                                                              *)
(*                                                                            *)
(* State machine of enumerations: mem maps an iterator to the labels it has   *)
(* yielded.  Several iterators of several groups run interleaved; a "next"    *)
(* step appends a label to one of them, "done" stops one.  "order" events     *)
(* compare every pair of a list of labels, "parse" events read a text.        *)
EXTENDS TraceBase, Labels

Step(tr, k, s) ==
  LET e == tr[k]
      r == CASE e.exc # "" -> [st |-> s, bad |-> {"raised"}]
             [] e.op = "next" -> Next1(e, s)
             [] e.op = "done" -> Done(e, s)
             [] e.op = "order" -> [st |-> s, bad |-> Order(e)]
             [] e.op = "parse" -> [st |-> s, bad |-> Parse(e)]
             [] e.op = "value" -> [st |-> s, bad |-> Value(e)]
             [] e.op = "scal" -> [st |-> s, bad |-> Scal(e)]
  IN [st |-> r.st, bad |-> { Prop \o ":" \o c : c \in r.bad }]

Init == TraceInit(Fresh)
Next == TraceNext(Step)
All == {"SU2", "SO3", "O3", "SL2C", "SO13", "SU2Real", "Z2", "SUN"}
Required == IF Prop = "C29" THEN All \cup {"PROD", "scal"}
            ELSE All \cup {"PROD", "next", "done", "order", "parse1", "parsemul", "parsered", "space", "value"}
Accepted == TraceAccepted(Required)
=============================================================================
