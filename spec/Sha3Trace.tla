------------------------------ MODULE Sha3Trace ------------------------------
(***************************************************************************)
(* Hashing through the cache is a function: each line of the file is an    *)
(* input and all the hashes the real cache returned for it, in histories   *)
(* with hits, evictions and concurrent users.                              *)
(***************************************************************************)
EXTENDS Keccak, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES n, done
Init == n \in 1..Len(Obs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ n' = n
        /\ LET want == Keccak256(Obs[n].key) IN
           IF \A i \in 1..Len(Obs[n].hash) : Obs[n].hash[i] = want THEN TRUE
           ELSE PrintT(ToString(<<"BAD", n, want>>))
=============================================================================
