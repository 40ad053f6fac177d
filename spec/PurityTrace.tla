------------------------------ MODULE PurityTrace ------------------------------
(* C27.  The abstract state of a history of calls: the digest of every value  *)
(* of the store, and for every call made so far its outcome (the event that   *)
(* first returned it), the digest of the result object that was handed out    *)
(* and whether the caller has overwritten it since.  Nothing but "scribble"   *)
(* (the caller writes into a result) changes a digest, and every repetition,  *)
(* also in a fresh process where nothing was called before, has the outcome   *)
(* of the first call.                                                         *)
EXTENDS TraceBase, Reps

(* outcome: a list of numerical results and a text (what is not numerical) *)
RTolP == 4 * Tol
SameMat(P, Q) == IF ~P.ok \/ ~Q.ok THEN P.ok = Q.ok /\ P.n = Q.n /\ P.m = Q.m ELSE NearM(P, Q, RTolP)
SameOutcome(a, b) ==
  /\ a.text = b.text
  /\ Len(a.res) = Len(b.res)
  /\ \A k \in 1..Len(a.res) : SameMat(a.res[k], b.res[k])

NoCalls == << >>
Called(s, c) == c \in DOMAIN s.calls
Upd(f, c, v) == [x \in DOMAIN f \cup {c} |-> IF x = c THEN v ELSE f[x]]
ArgsBad(e, s) == Must(\A k \in 1..Len(e.after) : s.vals[e.after[k][1]] = e.after[k][2], "argument-changed")
                 \cup Must(e.lists[1] = e.lists[2], "argument-list-changed")

Step(tr, k, s) ==
  LET e == tr[k] IN
  IF e.exc # "" THEN [st |-> s, bad |-> {Prop \o ":raised"}]
  ELSE CASE e.op = "begin" -> [st |-> [vals |-> e.vals, calls |-> NoCalls], bad |-> {}]
    [] e.op = "call" ->
         [st |-> [s EXCEPT !.calls = Upd(@, e.cid, [line |-> k, dig |-> e.dig, dirty |-> FALSE])],
          bad |-> { Prop \o ":" \o c : c \in ArgsBad(e, s) }]
    [] e.op \in {"again", "copy"} ->
         [st |-> s, bad |-> { Prop \o ":" \o c : c \in
            ArgsBad(e, s) \cup Must(Called(s, e.cid) /\ SameOutcome(tr[s.calls[e.cid].line], e), "repeat-differs") }]
    [] e.op = "fresh" ->
         [st |-> s, bad |-> { Prop \o ":" \o c : c \in Must(Called(s, e.cid) => SameOutcome(tr[s.calls[e.cid].line], e), "depends-on-history") }]
    [] e.op = "scribble" ->
         [st |-> [s EXCEPT !.calls = IF Called(s, e.cid) THEN [@ EXCEPT ![e.cid].dirty = TRUE] ELSE @], bad |-> {}]
    [] e.op = "sweep" ->
         [st |-> s, bad |-> { Prop \o ":" \o c : c \in
            Must(\A q \in 1..Len(e.vals) : s.vals[q] = e.vals[q], "value-changed")
            \cup Must(\A q \in 1..Len(e.results) : LET c == e.results[q][1] IN
                        Called(s, c) /\ (s.calls[c].dirty \/ s.calls[c].dig = e.results[q][2]), "result-changed") }]

Init == TraceInit([vals |-> << >>, calls |-> NoCalls])
Next == TraceNext(Step)
Spec == Init /\ [][Next]_tvars
Required ==
  {"call:" \o o : o \in {"tp", "tpow", "dsum", "mul", "red", "redq", "cb", "ca", "conj", "gp", "triv", "gen", "isunit", "istriv", "irred", "isreal", "mkreal",
      "reduce", "read", "exp", "text", "fromrep", "cg", "infer", "cgtp", "check", "rtp", "rstp", "rtplist",
      "nullspace", "gram", "extend", "extendE", "seqnull", "intersect", "inferalg", "checkalg", "round", "roundsym", "vmap", "kron", "adsum", "bdiag", "comm",
      "unique", "eigen", "psign", "decompose", "airred", "regular", "icob", "matpow"}}
  \cup {"again", "copy", "scribble", "sweep", "fresh"}
Accepted == TraceAccepted(Required)
=============================================================================
