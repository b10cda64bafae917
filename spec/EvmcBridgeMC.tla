----------------------------- MODULE EvmcBridgeMC -----------------------------
(***************************************************************************)
(* The bridge with machines that make any request and return any result,   *)
(* over small domains: runs nest, the context answers what it likes.       *)
(***************************************************************************)
EXTENDS EvmcBridge
CONSTANT Depth
VARIABLES frames, store, seen, last, n
vars == <<frames, store, seen, last, n>>
P == [rev : {0, 5, 6}, static : BOOLEAN, depth : {"0"}, gas : {"7"}, rcpt : {"A", "B"}, sender : {"A"}, input : {""}, value : {Zero}, codehash : {"none", Zero}, code : {""},
      price : {"1"}, origin : {"A"}, coinbase : {"B"}, number : {"1"}, time : {"2"}, limit : {"3"}, randao : {Zero}, chain : {"4"}, basefee : {"5"}, blobfee : {"6"}, blobs : {<< >>, <<"h">>}]
R == [st : -3..17, out : {"", "01"}, gas : {"0", "9"}, ref : {"0", "-1"}]
None == [ok |-> FALSE, out |-> "", gas |-> "0", ref |-> "0", err |-> TRUE]
World == [x \in {"A", "B", "C"} |-> CASE x = "A" -> [nonce |-> "0", bal |-> Zero, code |-> "", size |-> "0", hash |-> "q"]
                                       [] x = "B" -> [nonce |-> "1", bal |-> Zero, code |-> "", size |-> "0", hash |-> "r"]
                                       [] x = "C" -> [nonce |-> "0", bal |-> Zero, code |-> "00", size |-> "1", hash |-> "s"]]
K == {"k1"}
V == {Zero, "v"}
Requests == [op : {"SetStorage"}, a : {"A", "B"} \X K \X V, ans : {Statuses[i] : i \in 1..9}] \cup [op : {"SetTransientStorage"}, a : {"A"} \X K \X V, ans : {""}]
       \cup [op : {"GetStorage", "GetTransientStorage"}, a : {"A", "B"} \X K, ans : {""}] \cup [op : {"AccountExists", "GetCodeHash", "GetBalance"}, a : {<<x>> : x \in {"A", "B", "C"}}, ans : {""}]
       \cup [op : {"AccessAccount"}, a : {<<"A">>}, ans : BOOLEAN]
Init == frames = << >> /\ store = << >> /\ seen = << >> /\ last = None /\ n = 0
Top == frames[Len(frames)]
\* a run of a revision the bridge does not know ends at once, with an error
Enter == /\ Len(frames) < Depth /\ n < 3
         /\ \E p \in {q \in P : IF frames = << >> THEN TRUE ELSE q.rcpt = "B" /\ q.blobs = Top.blobs /\ q.codehash = "none"} :
              IF Supported(p) THEN frames' = Append(frames, p) /\ seen' = Append(seen, Message(p)) /\ last' = last ELSE last' = None /\ UNCHANGED <<frames, seen>>
         /\ n' = n + 1 /\ UNCHANGED store
Request == /\ frames # << >> /\ n < 3
           /\ \E o \in Requests : store' = Stored(store, o)
           /\ n' = n + 1 /\ UNCHANGED <<frames, seen, last>>
Finish == /\ frames # << >>
          /\ \E m \in R : last' \in Outcomes(m)
          /\ frames' = SubSeq(frames, 1, Len(frames) - 1) /\ seen' = SubSeq(seen, 1, Len(seen) - 1) /\ UNCHANGED <<store, n>>
Next == Enter \/ Request \/ Finish

TypeOK == Len(frames) = Len(seen) /\ Len(frames) <= Depth /\ DOMAIN store \subseteq {"s", "t"} \X {"A", "B"} \X K
\* what the machine sees and may ask for determines the run: two runs differ in it
Faithful == \A i \in 1..Len(frames) : seen[i] = Message(frames[i]) /\ \A p \in P : (Supported(p) /\ Message(p) = seen[i] /\ Environment(p) = Environment(frames[i])) => p = frames[i]
\* every result has an outcome, only one that succeeds is reported as one, a failure leaves nothing, and every request has an answer
Total == /\ \A m \in R : /\ Outcomes(m) # {}
                         /\ \A r \in Outcomes(m) : (r.ok <=> m.st = Success) /\ (r.err => ~r.ok) /\ ((~r.ok /\ m.st # Revert) => r.gas = "0" /\ r.out = "" /\ r.ref = "0")
                         /\ (m.st \in 1..17 => \E r \in Outcomes(m) : ~r.err)
         /\ frames # << >> => \A o \in Requests : LET g == Answer(World, store, Top, o) IN
               /\ (o.op = "SetStorage" => Statuses[g + 1] = o.ans)
               /\ (o.op = "AccountExists" => (g = "yes") = (o.a[1] # "A"))
               /\ (o.op = "GetCodeHash" => (g = Zero) = (o.a[1] = "A"))
               /\ (o.op = "GetStorage" => g = Get(store, <<"s", o.a[1], o.a[2]>>))
\* a run leaves the runs around it alone, persistent and transient storage are apart, and a run ends with what its machine has returned
Isolated == [][/\ \A i \in 1..Len(frames) : i <= Len(frames') => frames'[i] = frames[i]
               /\ (\E x \in DOMAIN store' : Get(store', x) # Get(store, x)) => Cardinality({x \in DOMAIN store' : Get(store', x) # Get(store, x)}) = 1]_vars
Spec == Init /\ [][Next]_vars
=============================================================================
