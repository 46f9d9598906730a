-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance of a recorded history of API calls (one JSON event per      *)
(* line) to the contract.  The history is split in shards that are checked *)
(* independently; a state is (shard, position) and a transition consumes a *)
(* batch of events.  Every event that the contract does not allow is       *)
(* printed; bad counts them and Conformance is the invariant bad = 0.      *)
(* (The driver runs TLC with -continue, so that all of them are reported.) *)
(***************************************************************************)
EXTENDS Api, Json, IOUtils, TLCExt

Log == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Log)
Shards == 32
Batch == 16

VARIABLES shard, pos, bad
vars == <<shard, pos, bad>>

(* shard s owns the events s, s+Shards, s+2*Shards, ... *)
Index(s, k) == s + k * Shards
Rows(s) == IF s > N THEN 0 ELSE (N - s) \div Shards + 1

Wrong(i) == ~Conforms(Log[i])
Report(i) == LET k == Known(Log[i]) IN IF k = "" THEN PrintT(<<"MISMATCH", i>>) ELSE PrintT(<<"KNOWN", i, k>>)

Init == shard \in 1..Min2(Shards, N) /\ pos = 0 /\ bad = 0

Consume ==
  /\ pos < Rows(shard)
  /\ LET hi == Min2(pos + Batch, Rows(shard))
         w  == {k \in pos..(hi - 1) : Wrong(Index(shard, k)) /\ Report(Index(shard, k))}
     IN /\ bad' = bad + Cardinality(w)
        /\ pos' = hi
  /\ UNCHANGED shard

Next == Consume
Spec == Init /\ [][Next]_vars

Conformance == bad = 0

(* Nothing was skipped: the number of states TLC saw is what the shards need. *)
BatchesOf(s) == (Rows(s) + Batch - 1) \div Batch + 1
RECURSIVE SumBatches(_)
SumBatches(s) == IF s = 0 THEN 0 ELSE SumBatches(s - 1) + BatchesOf(s)
Complete == PrintT(<<"EVENTS", N, "STATES", TLCGet("distinct"), SumBatches(Min2(Shards, N))>>)
            /\ TLCGet("distinct") = SumBatches(Min2(Shards, N))
=============================================================================
