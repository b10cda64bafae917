------------------------------ MODULE EvmcBridge ------------------------------
(***************************************************************************)
(* The bridge between Tosca and virtual machines behind the EVMC interface *)
(* (go/interpreter/evmc).  A run of an interpreter becomes an execution of *)
(* the machine; requests of the machine to its host become operations on   *)
(* the context of the run; the result of the machine becomes the result of *)
(* the run.  The bridge holds no state of its own: frames are the runs in  *)
(* progress, store is what the context holds.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Zero == "0000000000000000000000000000000000000000000000000000000000000000"

\* --- runs ----------------------------------------------------------------
Revisions == <<7, 8, 9, 10, 11, 12>>                  \* Istanbul .. Cancun
Supported(p) == p.rev \in 0..5
Message(p) == [rev |-> Revisions[p.rev + 1], kind |-> 0, static |-> p.static, depth |-> p.depth, gas |-> p.gas, rcpt |-> p.rcpt, sender |-> p.sender,
               input |-> p.input, value |-> p.value, codehash |-> p.codehash, code |-> p.code]
Environment(p) == [price |-> p.price, origin |-> p.origin, coinbase |-> p.coinbase, number |-> p.number, time |-> p.time, limit |-> p.limit, randao |-> p.randao,
                   chain |-> p.chain, basefee |-> p.basefee, blobfee |-> p.blobfee, blobs |-> p.blobs]

\* --- results: statuses of EVMC ---------------------------------------------
Success == 0
Revert == 2
\* failures of the executed code: failure, out of gas, invalid and undefined instruction, stack overflow and underflow, bad jump, invalid memory access, read-only violation
Failures == {1, 3, 4, 5, 6, 7, 8, 9, 11}
Internal == {-1, -2, -3}
Outcomes(m) ==            \* of a result of the machine
  IF m.st = Success THEN {[ok |-> TRUE, out |-> m.out, gas |-> m.gas, ref |-> m.ref, err |-> FALSE]}
  ELSE IF m.st = Revert THEN {[ok |-> FALSE, out |-> m.out, gas |-> m.gas, ref |-> m.ref, err |-> FALSE]}
  ELSE LET failed == [ok |-> FALSE, out |-> "", gas |-> "0", ref |-> "0", err |-> FALSE]
           error == [ok |-> FALSE, out |-> "", gas |-> "0", ref |-> "0", err |-> TRUE]
       IN IF m.st \in Failures THEN {failed} ELSE IF m.st \in Internal THEN {error} ELSE {failed, error}

\* --- requests ---------------------------------------------------------------
Statuses == <<"StorageAssigned", "StorageAdded", "StorageDeleted", "StorageModified", "StorageDeletedAdded", "StorageModifiedDeleted", "StorageDeletedRestored", "StorageAddedDeleted", "StorageModifiedRestored">>
Kinds == <<"call", "delegatecall", "callcode", "create", "create2">>
ToscaKind(k, static) == IF k = 0 /\ static THEN "staticcall" ELSE Kinds[k + 1]
YesNo(b) == IF b THEN "yes" ELSE "no"
Empty(t) == t.nonce = "0" /\ t.bal = Zero /\ t.size = "0"
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE Zero

\* The operations a request may become, all of which have the same effect; the part of a call that its kind ignores is open.
Ops(o) ==
  LET a == o.a IN
  CASE o.op = "SetStorage" -> <<<<"SetStorage", a[1], a[2], a[3]>>>>
    [] o.op = "SetTransientStorage" -> <<<<"SetTransientStorage", a[1], a[2], a[3]>>>>
    [] o.op = "Selfdestruct" -> <<<<"SelfDestruct", a[1], a[2]>>>>
    [] o.op = "AccessAccount" -> <<<<"AccessAccount", a[1]>>>>
    [] o.op = "AccessStorage" -> <<<<"AccessStorage", a[1], a[2]>>>>
    [] o.op = "EmitLog" -> <<<<"EmitLog", a[1], a[2], a[3]>>>>
    [] OTHER -> << >>
\* a call: kind, static, recipient, sender, value, input, gas, salt, code address
SameCall(a, c) ==
  /\ Len(c) = 1 /\ Len(c[1]) = 9
  /\ LET x == c[1]
         create == a[1] \in {3, 4}
     IN /\ x[1] = "Call" /\ x[2] = ToscaKind(a[1], a[2]) /\ x[3] = a[4] /\ x[6] = a[6] /\ x[7] = a[7]
        /\ (create \/ (x[4] = a[3] /\ x[9] = a[9]))
        /\ (x[2] = "staticcall" \/ x[5] = a[5])
        /\ (a[1] # 4 \/ x[8] = a[8])
Reached(o) == IF o.op = "Call" THEN SameCall(o.a, o.calls) ELSE o.calls = Ops(o)

\* the answer to a request, given what the context has answered
Answer(world, store, top, o) ==
  LET a == o.a IN
  CASE o.op = "AccountExists" -> YesNo(~Empty(world[a[1]]))
    [] o.op = "GetStorage" -> Get(store, <<"s", a[1], a[2]>>)
    [] o.op = "GetTransientStorage" -> Get(store, <<"t", a[1], a[2]>>)
    [] o.op = "SetStorage" -> (CHOOSE i \in 1..9 : Statuses[i] = o.ans) - 1
    [] o.op = "SetTransientStorage" -> ""
    [] o.op = "GetBalance" -> world[a[1]].bal
    [] o.op = "GetCodeSize" -> world[a[1]].size
    [] o.op = "GetCode" -> world[a[1]].code
    [] o.op = "GetCodeHash" -> IF Empty(world[a[1]]) THEN Zero ELSE world[a[1]].hash
    [] o.op = "Selfdestruct" -> YesNo(o.ans)
    [] o.op = "GetTxContext" -> Environment(top)
    [] o.op = "GetBlockHash" -> o.ans
    [] o.op = "EmitLog" -> ""
    [] o.op = "Call" -> [out |-> o.ans.out, gas |-> o.ans.gas, ref |-> o.ans.ref, created |-> o.ans.created, status |-> IF o.ans.ok THEN Success ELSE Revert]
    [] o.op \in {"AccessAccount", "AccessStorage"} -> IF o.ans THEN 1 ELSE 0
Answered(world, store, top, o) ==
  IF o.op = "Call" /\ o.ans.err THEN o.got.status # Success   \* the machine has to learn that the call did not take place
  ELSE IF o.op = "Call" /\ o.a[1] \notin {3, 4} THEN [o.got EXCEPT !.created = ""] = [Answer(world, store, top, o) EXCEPT !.created = ""]
  ELSE o.got = Answer(world, store, top, o)
Stored(store, o) ==
  IF o.op = "SetStorage" THEN (<<"s", o.a[1], o.a[2]>> :> o.a[3]) @@ store
  ELSE IF o.op = "SetTransientStorage" THEN (<<"t", o.a[1], o.a[2]>> :> o.a[3]) @@ store
  ELSE store

\* --- single steps --------------------------------------------------------------
StepStatus == <<"running", "stopped", "returned", "reverted", "failed">>          \* of EVMC
CtStatus == <<"running", "stopped", "stopped", "reverted", "failed">>
StepCode(s) == CASE s = "running" -> 0 [] s = "stopped" -> 1 [] s = "reverted" -> 3 [] s = "failed" -> 4
RECURSIVE Joined(_)
Joined(l) == IF l = << >> THEN "" ELSE IF Len(l) = 1 THEN l[1] ELSE LET h == Len(l) \div 2 IN Joined(SubSeq(l, 1, h)) \o Joined(SubSeq(l, h + 1, Len(l)))
StepMessage(p, s, n) == [rev |-> Revisions[p.rev + 1], kind |-> 0, static |-> p.static, depth |-> p.depth, rcpt |-> p.rcpt, sender |-> p.sender, input |-> p.input, value |-> p.value,
  codehash |-> p.codehash, code |-> p.code, gas |-> s.gas, ref |-> s.ref, last |-> s.last, st |-> StepCode(s.st), pc |-> ToString(s.pc), stack |-> Joined(s.stack), mem |-> s.mem, steps |-> n]
Stepped(s, m) == [st |-> CtStatus[m.st + 1], pc |-> m.pc, gas |-> m.gas, ref |-> m.ref, stack |-> m.stack, mem |-> m.mem, last |-> m.last,
                  out |-> IF m.st \in {2, 3} THEN m.out ELSE s.out]
StepFails(m) == m.err \/ m.st \notin 0..4 \/ m.odd
=============================================================================
