------------------------------- MODULE AlgDesign -------------------------------
(* Design model of the inference of structure constants.  A state is a set of *)
(* matrix units E_ij of gl(Dim) written in a basis of integer combinations; a *)
(* step adds a multiple of one generator to another.                          *)
(*   Closing  Closes decides closure as the relations of the matrix units do  *)
(*   Accepts  the transformed constants hold and are what Infer admits        *)
(*   Sharp    no constants with one coefficient changed hold or are admitted  *)
EXTENDS Algebras
CONSTANTS Dim_, MaxSteps, MaxUnits

VARIABLES S, T, Ti, steps
vars == << S, T, Ti, steps >>
Units == (1..Dim_) \X (1..Dim_)
Seq_ == SetToSeq(S)
N == Len(Seq_)
IdM(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Init == /\ S \in { s \in SUBSET Units : Cardinality(s) <= MaxUnits } /\ steps = 0
        /\ T = IdM(Cardinality(S)) /\ Ti = IdM(Cardinality(S))
(* X_a += c X_b:  T := E T, Ti := Ti E^-1 *)
Next == /\ steps < MaxSteps
        /\ \E a, b \in 1..N, c \in {-1, 2} : a # b
             /\ T' = [T EXCEPT ![a] = [k \in 1..N |-> @[k] + c * T[b][k]]]
             /\ Ti' = [i \in 1..N |-> [Ti[i] EXCEPT ![b] = @ - c * Ti[i][a]]]
        /\ steps' = steps + 1 /\ UNCHANGED S
Spec == Init /\ [][Next]_vars

(* constants of the matrix units: [E_ij, E_kl] = d_jk E_il - d_li E_kj *)
B(u, v, w) == (IF u[2] = v[1] /\ w = << u[1], v[2] >> THEN 1 ELSE 0) - (IF v[2] = u[1] /\ w = << v[1], u[2] >> THEN 1 ELSE 0)
Reach(u, v) == { w \in Units : B(u, v, w) # 0 }
Closed == \A u, v \in S : Reach(u, v) \subseteq S
Commuting == \A u, v \in S : Reach(u, v) = {}
S3(F(_)) == FoldLeft(LAMBDA s, k : s + F(k), 0, Idx(N))
Const(a, b, c) == S3(LAMBDA p : S3(LAMBDA q : IF T[a][p] * T[b][q] = 0 THEN 0 ELSE T[a][p] * T[b][q] * S3(LAMBDA r : B(Seq_[p], Seq_[q], Seq_[r]) * Ti[r][c])))
Mats == [a \in 1..N |-> [i \in 1..Dim_ |-> [j \in 1..Dim_ |-> << S3(LAMBDA p : IF Seq_[p] = << i, j >> THEN T[a][p] ELSE 0), 0 >>]]]
Con == TLCEval([a \in 1..N |-> TLCEval([b \in 1..N |-> TLCEval([c \in 1..N |-> Const(a, b, c)])])])
Ev == [X |-> Mats, d |-> Dim_, unit |-> 1, zeroed |-> FALSE]
LogA(C) == [n |-> N, ok |-> TRUE,
            e |-> SelectSeq(FlattenSeq([a \in 1..N |-> FlattenSeq([b \in 1..N |-> [c \in 1..N |-> << a, b, c, 512 * C[a][b][c], 0, 0, 0 >>]])]), LAMBDA x : x[4] # 0)]
Inverses == \A i, j \in 1..N : S3(LAMBDA k : T[i][k] * Ti[k][j]) = (IF i = j THEN 1 ELSE 0)
Closing == Closes(Ev) = Closed /\ Abelian(Ev) = Commuting
Accepts == LET C == Con  e == Ev IN
  IF Closed THEN /\ HoldsMod([e EXCEPT !.X = @] @@ [A |-> C], P1) /\ Holds(e @@ [A |-> C]) /\ HoldsWithin(e @@ [A |-> C, atol2 |-> 0, rtol2 |-> 0])
                 /\ Infer(e, FALSE, LogA(C)) = {} /\ Infer(e, TRUE, LogA(C)) # {}
  ELSE Infer(e, TRUE, LogA(C)) = {} /\ Infer(e, FALSE, LogA(C)) # {}
Sharp == Closed =>
  LET C == Con  e == Ev IN
  \A a, b, c \in 1..N : LET M == [C EXCEPT ![a] = [@ EXCEPT ![b] = [@ EXCEPT ![c] = @ + 1]]] IN
     ~Holds(e @@ [A |-> M]) /\ Infer(e, FALSE, LogA(M)) # {}
=============================================================================
