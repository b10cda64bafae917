------------------------------- MODULE CtState -------------------------------
(***************************************************************************)
(* The states of the conformance tool (go/ct/st) as values, and the view   *)
(* of them that is handed to interpreters (go/ct/utils).                   *)
(*                                                                         *)
(* A heap maps handles to states.  A state is a record of its parts; every *)
(* operation changes the parts it is meant to change of the one state it   *)
(* is applied to, and no other state: copies are independent of their      *)
(* origin, whatever is shared inside.  Words are hexadecimal strings       *)
(* without leading zeros; absent entries of maps read as "0".              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions
LOCAL K == INSTANCE Keccak

\* maps are sets of pairs without entries for the default
Get(m, k) == IF \E e \in m : e[1] = k THEN (CHOOSE e \in m : e[1] = k)[2] ELSE "0"
Put(m, k, v) == {e \in m : e[1] # k} \cup (IF v = "0" THEN {} ELSE {<<k, v>>})

Nothing == [status |-> "running", revision |-> 0, readonly |-> FALSE, pc |-> 0, gas |-> "0", refund |-> "0", code |-> << >>,
  stack |-> << >>, memory |-> << >>, cur |-> {}, orig |-> {}, warm |-> {}, trans |-> {}, accts |-> {}, awarm |-> {}, logs |-> << >>,
  self |-> "0", caller |-> "0", value |-> "0", basefee |-> "0", blobfee |-> "0", number |-> "0", chain |-> "0", coinbase |-> "0", limit |-> "0",
  price |-> "0", randao |-> "0", time |-> "0", past |-> << >>, future |-> << >>, calldata |-> << >>, lastret |-> << >>, ret |-> << >>,
  destructed |-> FALSE, sdj |-> << >>, hashes |-> {}, origin |-> "0", blobs |-> << >>]
Parts == DOMAIN Nothing
BlockParts == {"basefee", "blobfee", "number", "chain", "coinbase", "limit", "price", "randao", "time"}
Scalars == {"status", "revision", "readonly", "pc", "gas", "refund", "self", "caller", "value", "calldata", "lastret", "ret", "destructed", "origin"} \cup BlockParts

\* ---- equality ----
Common == Parts \ {"status", "pc", "stack", "memory", "lastret", "ret"}
Same(s, t, ps) == \A p \in ps : s[p] = t[p]
\* All failed states are the same; of ended executions only the outcome counts, of running ones only what
\* execution depends on; beyond the end of the code all positions are the same.
Eq(s, t) ==
  /\ s.status = t.status
  /\ s.status # "failed" =>
       /\ Same(s, t, Common)
       /\ IF s.status = "running"
          THEN Same(s, t, {"stack", "memory", "lastret"}) /\ (s.pc = t.pc \/ (s.pc >= Len(s.code) /\ t.pc >= Len(t.code)))
          ELSE s.ret = t.ret
\* whether the list of differences is empty
NoDiff(s, t) == Same(s, t, Parts \ {"ret"}) /\ (s.status \in {"stopped", "reverted"} => s.ret = t.ret)

\* ---- code ----
\* the positions of the code that are data of a preceding push instruction
Datum(code) ==
  LET step(a, i) == IF i <= a[1] THEN a   \* i is data
                    ELSE IF code[i] \in 96..127 THEN <<i + code[i] - 95, a[2] \cup ((i + 1)..(i + code[i] - 95))>> ELSE a
  IN FoldLeft(LAMBDA a, i : step(a, i), <<0, {}>>, [i \in 1..Len(code) |-> i])[2]
ByteAt(code, i) == IF i + 1 \in 1..Len(code) THEN code[i + 1] ELSE 0
CodeInfo(code, i) == IF i + 1 \in Datum(code) THEN [code |-> FALSE, op |-> -1, data |-> ByteAt(code, i)]
                     ELSE [code |-> TRUE, op |-> ByteAt(code, i), data |-> -1]

\* ---- memory ----
Zeros(n) == [i \in 1..n |-> 0]
Grown(m, off, size) == IF size = 0 \/ off + size <= Len(m) THEN m ELSE m \o Zeros(32 * ((off + size + 31) \div 32) - Len(m))
Written(m, off, d) == LET g == Grown(m, off, Len(d)) IN [i \in 1..Len(g) |-> IF i - 1 \in off..(off + Len(d) - 1) THEN d[i - off] ELSE g[i]]

\* ---- accounts: <<address, balance, code>> ----
Account(s, a) == IF \E x \in s.accts : x[1] = a THEN CHOOSE x \in s.accts : x[1] = a ELSE <<a, "0", << >>>>
Exists(s, a) == \E x \in s.accts : x[1] = a
SetBalance(s, a, b) == [s EXCEPT !.accts = {x \in @ : x[1] # a} \cup {<<a, b, Account(s, a)[3]>>}]

\* ---- storage ----
Status(o, c, n) ==
  CASE c = n -> "assigned"
    [] c # n /\ o = c /\ o = "0" -> "added"
    [] c # n /\ o = c /\ o # "0" /\ n = "0" -> "deleted"
    [] c # n /\ o = c /\ o # "0" /\ n # "0" -> "modified"
    [] c # n /\ o # c /\ o # "0" /\ c = "0" /\ n # o -> "deletedadded"
    [] c # n /\ o # c /\ o # "0" /\ c # "0" /\ n = "0" -> "modifieddeleted"
    [] c # n /\ o # c /\ o # "0" /\ c = "0" /\ n = o -> "deletedrestored"
    [] c # n /\ o # c /\ o = "0" /\ n = "0" -> "addeddeleted"
    [] c # n /\ o # c /\ o # "0" /\ c # "0" /\ n = o -> "modifiedrestored"
    [] OTHER -> "assigned"

\* ---- operations on one state: the state and the result ----
None == "none"
Bool(b) == IF b THEN "yes" ELSE "no"
Heat(b) == IF b THEN "warm" ELSE "cold"
\* a call of the interpreter: <<kind, recipient, sender, input, value, gas, code address>>; a prepared result: <<success, output, costs, refund, created>>
Called(s, c) ==
  LET r == IF s.future = << >> THEN <<FALSE, << >>, 0, 0, "0">> ELSE Head(s.future)
      left == IF c[6] < r[3] THEN 0 ELSE c[6] - r[3]
  IN <<[s EXCEPT !.past = Append(@, c), !.future = IF @ = << >> THEN @ ELSE Tail(@)], <<Bool(r[1]), r[2], left, r[4], r[5]>>>>
\* the hash of the block that is d blocks before the current one
Small == ("0" :> 0) @@ ("1" :> 1) @@ ("64" :> 100) @@ ("ff" :> 255) @@ ("100" :> 256) @@ ("101" :> 257)   \* all other numbers are larger
BlockHash(s, d) == IF d \in 1..256 /\ (s.number \in DOMAIN Small => d <= Small[s.number]) THEN Get(s.hashes, d - 1) ELSE "0"

OnState(s, o) ==
  LET a == o.a IN
  CASE o.op = "set" -> <<[s EXCEPT ![a[1]] = a[2]], None>>
    [] o.op = "code" -> <<[s EXCEPT !.code = a[1]], None>>
    [] o.op = "push" -> <<[s EXCEPT !.stack = Append(@, a[1])], None>>
    [] o.op = "pop" -> <<[s EXCEPT !.stack = Front(@)], Last(s.stack)>>
    [] o.op = "peek" -> <<s, s.stack[Len(s.stack) - a[1]]>>
    [] o.op = "poke" -> <<[s EXCEPT !.stack[Len(s.stack) - a[1]] = a[2]], None>>
    [] o.op = "shrink" -> <<[s EXCEPT !.stack = SubSeq(@, 1, a[1])], None>>
    [] o.op = "stack" -> <<[s EXCEPT !.stack = a[1]], None>>
    [] o.op = "mset" -> <<[s EXCEPT !.memory = a[1]], None>>
    [] o.op = "mappend" -> <<[s EXCEPT !.memory = @ \o a[1]], None>>
    [] o.op = "mwrite" -> <<[s EXCEPT !.memory = Written(@, a[1], a[2])], None>>
    [] o.op = "mgrow" -> <<[s EXCEPT !.memory = Grown(@, a[1], a[2])], None>>
    [] o.op = "mread" -> <<[s EXCEPT !.memory = Grown(@, a[1], a[2])], SubSeq(Grown(s.memory, a[1], a[2]), a[1] + 1, a[1] + a[2])>>
    [] o.op = "setcur" -> <<[s EXCEPT !.cur = Put(@, a[1], a[2])], None>>
    [] o.op = "delcur" -> <<[s EXCEPT !.cur = Put(@, a[1], "0")], None>>
    [] o.op = "setorig" -> <<[s EXCEPT !.orig = Put(@, a[1], a[2])], None>>
    [] o.op = "delorig" -> <<[s EXCEPT !.orig = Put(@, a[1], "0")], None>>
    [] o.op = "warm" -> <<[s EXCEPT !.warm = @ \cup {a[1]}], None>>
    [] o.op = "cold" -> <<[s EXCEPT !.warm = @ \ {a[1]}], None>>
    [] o.op = "settrans" -> <<[s EXCEPT !.trans = Put(@, a[1], a[2])], None>>
    [] o.op = "balance" -> <<SetBalance(s, a[1], a[2]), None>>
    [] o.op = "awarm" -> <<[s EXCEPT !.awarm = @ \cup {a[1]}], None>>
    [] o.op = "accounts" -> <<[s EXCEPT !.accts = ToSet(a[1]), !.awarm = ToSet(a[2])], None>>
    [] o.op = "storage" -> <<[s EXCEPT !.cur = {e \in ToSet(a[1]) : e[2] # "0"}, !.orig = {e \in ToSet(a[2]) : e[2] # "0"}, !.warm = ToSet(a[3])], None>>
    [] o.op = "log" -> <<[s EXCEPT !.logs = Append(@, <<a[1], a[2]>>)], None>>
    [] o.op = "logbyte" -> <<[s EXCEPT !.logs[a[1]][2][a[2]] = a[3]], None>>
    [] o.op = "logtopic" -> <<[s EXCEPT !.logs[a[1]][1][a[2]] = a[3]], None>>
    [] o.op = "expect" -> <<[s EXCEPT !.future = Append(@, a[1])], None>>
    [] o.op = "pastgas" -> <<[s EXCEPT !.past[a[1]][6] = a[2]], None>>
    [] o.op = "futuregas" -> <<[s EXCEPT !.future[a[1]][3] = a[2]], None>>
    [] o.op = "blobs" -> <<[s EXCEPT !.blobs = a[1]], None>>
    [] o.op = "blob" -> <<[s EXCEPT !.blobs[a[1]] = a[2]], None>>
    [] o.op = "hashes" -> <<[s EXCEPT !.hashes = {<<i - 1, a[1][i]>> : i \in {j \in 1..Len(a[1]) : a[1][j] # "0"}}], None>>
    [] o.op = "sdentry" -> <<[s EXCEPT !.sdj = Append(@, <<a[1], a[2]>>)], None>>
    [] o.op = "sdset" -> <<[s EXCEPT !.sdj[a[1]] = <<a[2], a[3]>>], None>>
    [] o.op = "codeinfo" -> <<s, CodeInfo(s.code, a[1])>>
    [] o.op = "zero" -> <<s, Bool(s.trans = {})>>
    [] o.op = "empty" -> <<s, Bool(Account(s, a[1]) = <<a[1], "0", << >>>>)>>
    [] o.op = "call" -> Called(s, a[1])
    \* the view of interpreters
    [] o.op = "vexists" -> <<s, Bool(Exists(s, a[1]))>>
    [] o.op = "vget" -> <<s, Get(s.cur, a[2])>>
    [] o.op = "vset" -> <<[s EXCEPT !.cur = Put(@, a[2], a[3])], Status(Get(s.orig, a[2]), Get(s.cur, a[2]), a[3])>>
    [] o.op = "vcommitted" -> <<s, Get(s.orig, a[2])>>
    [] o.op = "vgettrans" -> <<s, Get(s.trans, a[2])>>
    [] o.op = "vsettrans" -> <<[s EXCEPT !.trans = Put(@, a[2], a[3])], None>>
    [] o.op = "vbalance" -> <<s, Account(s, a[1])[2]>>
    [] o.op = "vsetbalance" -> <<s, None>>
    [] o.op = "vnonce" -> <<s, 0>>
    [] o.op = "vsize" -> <<s, Len(Account(s, a[1])[3])>>
    [] o.op = "vcode" -> <<s, Account(s, a[1])[3]>>
    [] o.op = "vhash" -> <<s, K!Keccak256(Account(s, a[1])[3])>>
    [] o.op = "vblock" -> <<s, BlockHash(s, a[1])>>
    [] o.op = "vlog" -> <<[s EXCEPT !.logs = Append(@, <<a[1], a[2]>>)], None>>
    [] o.op = "vcall" -> Called(s, a[1])
    [] o.op = "vdestruct" -> <<[s EXCEPT !.sdj = Append(@, <<a[1], a[2]>>), !.destructed = TRUE], Bool(~s.destructed)>>
    [] o.op = "vdestructed" -> <<s, Bool(s.destructed)>>
    [] o.op = "vaccess" -> <<[s EXCEPT !.awarm = @ \cup {a[1]}], Heat(a[1] \in s.awarm)>>
    [] o.op = "vslot" -> <<[s EXCEPT !.warm = @ \cup {a[2]}], Heat(a[2] \in s.warm)>>
    [] o.op = "vinlist" -> <<s, Bool(a[1] \in s.awarm)>>
    [] o.op = "vslotinlist" -> <<s, Bool(a[2] \in s.warm)>>
    \* the parameters of an execution
    [] o.op = "params" -> <<s, [p \in BlockParts \cup {"revision", "origin", "blobs", "readonly", "gas", "self", "caller", "calldata", "value", "code"} |-> s[p]]>>
    [] o.op = "codehash" -> <<s, K!Keccak256(s.code)>>

\* ---- operations on the heap ----
\* copies: clone, and what is read back from an export; the origin stays as it is
Copies == {"clone", "reimport"}
Compare(h, o) == LET s == h[o.h]  t == h[o.a[1]] IN
  [eq |-> Bool(Eq(s, t)), qe |-> Bool(Eq(t, s)), nodiff |-> Bool(NoDiff(s, t)), nodiffback |-> Bool(NoDiff(t, s))]
Apply(h, o) ==
  CASE o.op = "new" -> <<(o.h :> Nothing) @@ h, None>>
    [] o.op \in Copies -> <<(o.a[1] :> h[o.h]) @@ h, None>>
    [] o.op = "release" -> <<[x \in DOMAIN h \ {o.h} |-> h[x]], None>>
    [] o.op = "compare" -> <<h, Compare(h, o)>>
    [] OTHER -> LET r == OnState(h[o.h], o) IN <<[h EXCEPT ![o.h] = r[1]], r[2]>>
=============================================================================
