------------------------------ MODULE GethAdapter ------------------------------
(***************************************************************************)
(* Transactions executed by go-ethereum's EVM through the geth adapter, as *)
(* the processor opera and tools built on go-ethereum do.                  *)
(*                                                                         *)
(* The machine is that of Floria, with other rules for entering and        *)
(* leaving messages: those of go-ethereum.  They replace Enter, Leave,     *)
(* Begin and End of Floria (see GethAdapterTrace, GethAdapterMC).          *)
(*                                                                         *)
(* The adapter must make the interpreter see exactly the messages that the *)
(* machine has: their parameters, among them whether a frame is read-only, *)
(* which go-ethereum does not hand on, the gas of each, and the refunds,   *)
(* which go-ethereum collects in the state and the interpreter per frame.  *)
(*                                                                         *)
(* Worlds have two more fields here: ref, the refunds of the transaction   *)
(* collected so far as a pair of what was added and what was taken, and    *)
(* new, the accounts created by the transaction.                           *)
(***************************************************************************)
EXTENDS Floria

CONSTANT HasSystem   \* whether there is the system contract

NoRefund == << << >>, << >> >>
Refunded(w, r) == IF "neg" \in DOMAIN r /\ r.neg THEN [w EXCEPT !.ref[2] = Plus(@, r.ref)] ELSE [w EXCEPT !.ref[1] = Plus(@, r.ref)]
\* Refunds may be negative in between, but not in the end.
NetRefund(w) == IF Less(w.ref[1], w.ref[2]) THEN << >> ELSE Minus(w.ref[1], w.ref[2])

\* The system contract protects the account of the origin, not that of the driver, and knows nothing of read-only frames.
GDriverRule == FALSE

GEnter(w, rev, origin, depth, static, m) ==
  LET create == IsCreate(m.kind)
      init == Hash(m.input)
      created == IF m.kind = CREATE THEN NewAddress(m.sender, Nonce(w, m.sender))
                 ELSE IF m.kind = CREATE2 THEN NewAddress2(m.sender, m.salt, init) ELSE NoOne
      rcpt == IF create THEN created ELSE m.rcpt
      from == IF m.kind \in {DELEGATE, CALLCODE} THEN m.codeaddr ELSE m.rcpt
      ro == static \/ m.kind = STATIC
      \* what remains of a failing creation: the nonce, and that the address has been accessed
      w1 == IF create THEN SetNonce(IF rev >= Berlin THEN Touch(w, {created}) ELSE w, m.sender, Plus(Nonce(w, m.sender), <<1>>)) ELSE w
      collision == Nonce(w1, created) # << >> \/ Code(w1, created) # << >>
      w2 == IF create THEN [SetNonce(w1, created, <<1>>) EXCEPT !.new = @ \cup {created}] ELSE w1
      pays == m.kind \notin {STATIC, DELEGATE}
      w3 == IF pays THEN Pay(w2, m.sender, rcpt, m.value) ELSE w2
      pre == IF create THEN 0 ELSE Precompile(rev, from)
      cost == PrecompileCost(rev, pre, m.input)
      system == HasSystem /\ m.kind = CALL /\ rcpt = SystemAddress
      sys == System(w3, origin, m.sender, FALSE, m.input, m.gas)
      h == CodeHash(w2, from)
      Done(u, res) == [t |-> "done", w |-> u, res |-> res]
      \* refusals give the gas back
      Refused(why) == Done(w, [Failed(why) EXCEPT !.gas = m.gas])
  IN IF depth > MaxDepth THEN Refused("depth")
     ELSE IF pays /\ Less(Balance(w, m.sender), m.value) THEN Refused("funds")
     ELSE IF create /\ Nonce(w, m.sender) = MaxNonce THEN Refused("nonce")
     ELSE IF create /\ collision THEN Done(w1, Failed("collision"))
     ELSE IF pre # 0 THEN
       IF ~PrecompileFree(rev, pre, m.input) \/ Less(m.gas, cost) THEN Done(w1, Failed("precompile-gas"))
       ELSE IF PrecompileFails(pre, m.input) THEN Done(w1, Failed("precompile"))
       ELSE Done(w3, Succeeded(PrecompileOut(pre, m.input), Minus(m.gas, cost), << >>, NoOne))
     ELSE IF system THEN Done(IF sys.res.ok THEN sys.w ELSE w1, sys.res)
     ELSE IF m.kind = CALL /\ Code(w3, rcpt) = << >> THEN Done(w3, Succeeded(<< >>, m.gas, << >>, NoOne))
     ELSE [t |-> "run", w |-> w3,
           f |-> [kind |-> m.kind, static |-> ro, depth |-> depth, gas |-> m.gas, rcpt |-> rcpt, sender |-> m.sender, input |-> m.input,
                  value |-> IF m.kind = STATIC THEN << >> ELSE m.value, code |-> IF create THEN m.input ELSE Code(w2, from),
                  \* the hash is optional
                  hash |-> IF m.kind = CREATE2 THEN init ELSE IF create \/ h = NoHash THEN << >> ELSE h,
                  saved |-> w1]]

\* A failing execution that leaves gas or has an output is a reverted one; all other failures are alike.
GLeave(w, rev, f, r) ==
  LET create == IsCreate(f.kind)
      deposit == N(200 * Len(r.out))
      back == f.saved
      reverted == r.gas # << >> \/ Len(r.out) > 0
  IN IF r.err THEN [w |-> back, res |-> [Failed("execution") EXCEPT !.err = TRUE]]
     ELSE IF ~r.ok THEN [w |-> back, res |-> IF reverted THEN [Failed("execution") EXCEPT !.out = r.out, !.gas = r.gas] ELSE Failed("execution")]
     ELSE IF ~create THEN [w |-> Refunded(w, r), res |-> Succeeded(r.out, r.gas, << >>, NoOne)]
     ELSE IF Len(r.out) > MaxCodeSize THEN [w |-> back, res |-> Failed("code-size")]
     ELSE IF rev >= London /\ Len(r.out) > 0 /\ r.out[1] = 239 THEN [w |-> back, res |-> Failed("code-prefix")]
     ELSE IF Less(r.gas, deposit) THEN [w |-> back, res |-> Failed("code-deposit")]
     ELSE [w |-> SetCode(Refunded(w, r), f.rcpt, r.out), res |-> Succeeded(r.out, Minus(r.gas, deposit), << >>, f.rcpt)]

\* Rejected transactions and such that cannot pay for their data are reported as errors.
GRejections(w, tx) ==
  (IF tx.nonce # Nonce(w, tx.sender) THEN {"nonce"} ELSE {})
  \cup (IF Code(w, tx.sender) # << >> THEN {"sender-code"} ELSE {})
  \cup (IF ~Fits(tx.gas, tx.price) \/ Less(Balance(w, tx.sender), Price(tx, tx.gas)) THEN {"gas-funds"} ELSE {})
GPrepared(w, rev, tx) ==
  IF rev < Berlin THEN w
  ELSE [w EXCEPT !.warm = @ \cup {tx.sender} \cup (IF tx.create THEN {} ELSE {tx.to}) \cup PrecompileAddresses(Berlin) \cup { tx.al[i].a : i \in 1..Len(tx.al) },
                 !.slots = @ \cup UNION { { <<tx.al[i].a, tx.al[i].k[j]>> : j \in 1..Len(tx.al[i].k) } : i \in 1..Len(tx.al) }]
Fields_(w) == DOMAIN w \cup {"ref", "new"}
GBegin(w, rev, tx) ==
  LET u == [x \in Fields_(w) |-> IF x = "ref" THEN NoRefund ELSE IF x = "new" THEN {} ELSE w[x]]
      w1 == SetBalance(u, tx.sender, Minus(Balance(w, tx.sender), Price(tx, tx.gas)))
      w2 == GPrepared(w1, rev, tx)
      w3 == IF tx.create THEN w2 ELSE SetNonce(w2, tx.sender, Plus(Nonce(w2, tx.sender), <<1>>))
      Error(r) == [r EXCEPT !.err = TRUE]
  IN IF GRejections(w, tx) # {} THEN [t |-> "end", w |-> u, rcpt |-> Error(NoReceipt), why |-> GRejections(w, tx)]
     ELSE IF Less(tx.gas, Intrinsic(tx)) THEN [t |-> "end", w |-> w1, rcpt |-> Error(Burned(tx)), why |-> {"intrinsic"}]
     ELSE [t |-> "msg", w |-> w3,
           m |-> [kind |-> IF tx.create THEN CREATE ELSE CALL, sender |-> tx.sender, rcpt |-> IF tx.create THEN NoOne ELSE tx.to, codeaddr |-> NoOne,
                  value |-> tx.value, input |-> tx.input, gas |-> Minus(tx.gas, Intrinsic(tx)), salt |-> NoHash]]

\* Failures of the interpreter are failures of the transaction.
GEnd(w, rev, tx, r) ==
  LET kept == IF tx.sender = NoOne THEN r.gas ELSE Minus(r.gas, Over(r.gas, <<10>>))
      cap == Over(Minus(tx.gas, kept), IF rev >= London THEN <<5>> ELSE <<2>>)
      left == IF r.ok THEN Plus(kept, MinOf(NetRefund(w), cap)) ELSE kept
  IN [w |-> SetBalance(w, tx.sender, Plus(Balance(w, tx.sender), Price(tx, left))),
      rcpt |-> [ok |-> r.ok, out |-> r.out, used |-> Minus(tx.gas, left), hasc |-> tx.create, c |-> r.created, logs |-> w.logs, err |-> FALSE]]

\* From Cancun on, only accounts created by the transaction are destroyed, others just paid out.
GDestroyed(w, rev, a, b) ==
  LET v == Balance(w, a)
      w1 == IF a = b THEN w ELSE SetBalance(SetBalance(w, b, Plus(Balance(w, b), v)), a, << >>)
  IN IF rev >= Cancun /\ a \notin w.new THEN w1
     ELSE [SetBalance(w1, a, << >>) EXCEPT !.gone = @ \cup {a}]
===============================================================================
