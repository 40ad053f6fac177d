------------------------------ MODULE TraceBase ------------------------------
(* Common part of all trace specifications.                                   *)
(*                                                                            *)
(* The driver writes the observed behaviour of the implementation into        *)
(* shards (independent sequences of events).  A state of a trace              *)
(* specification is (shard, pos, mem): the number of events consumed and the     *)
(* abstract state mem of the module's state machine.  A step consumes the next *)
(* event, computes the set of clauses of the specification the event breaks   *)
(* and reports it.  The postcondition demands that every event was consumed   *)
(* and that the events cover the domain the module requires (no vacuity).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Clauses

NShards == atoi(IOEnv.TRACE_SHARDS)
Log == [s \in 1..NShards |-> ndJsonDeserialize(IOEnv.TRACE_DIR \o "/shard" \o ToString(s) \o ".ndjson")]
Prop == IOEnv.TRACE_PROP      \* the property being decided
NEvents == LET RECURSIVE Sum(_)
               Sum(s) == IF s = 0 THEN 0 ELSE Len(Log[s]) + Sum(s - 1)
           IN Sum(NShards)

VARIABLES shard, pos, mem
tvars == << shard, pos, mem >>

TraceInit(st0) == shard \in 1..NShards /\ pos = 0 /\ mem = st0

Report(s, k, bad) ==
  \A c \in bad : PrintT("@@BAD " \o ToJson([shard |-> s, line |-> k, clause |-> c]))

(* Step(tr, k, s): [st |-> new abstract state, bad |-> broken clauses] of event k *)
TraceNext(Step(_, _, _)) ==
  /\ pos < Len(Log[shard])
  /\ LET r == Step(Log[shard], pos + 1, mem)
     IN /\ mem' = r.st
        /\ Report(shard, pos + 1, r.bad)
  /\ pos' = pos + 1
  /\ UNCHANGED shard

Tags == UNION { UNION { { Log[s][k].tags[i] : i \in 1..Len(Log[s][k].tags) } : k \in 1..Len(Log[s]) } : s \in 1..NShards }
TraceAccepted(required) ==
  /\ PrintT("@@DONE " \o ToJson([distinct |-> TLCGet("distinct"), generated |-> TLCGet("generated"),
                                 events |-> NEvents, shards |-> NShards,
                                 missing |-> required \ Tags]))
  /\ TLCGet("distinct") = NEvents + NShards
=============================================================================
