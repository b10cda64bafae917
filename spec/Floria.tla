-------------------------------- MODULE Floria --------------------------------
(***************************************************************************)
(* Processing of transactions: the world state, the messages exchanged by  *)
(* nested executions, and the acceptance, charging and roll back rules of  *)
(* the processor floria.                                                   *)
(*                                                                         *)
(* Numbers (balances, nonces, gas, storage keys and values) are big-endian *)
(* byte sequences without leading zeros, so they are unbounded by TLC's    *)
(* integers; an address is a sequence of 20 bytes.                         *)
(*                                                                         *)
(* A world is a record                                                     *)
(*   acc    function from addresses to accounts [b, n, c, s]; an address   *)
(*          outside its domain has the empty account                       *)
(*   logs   sequence of log entries                                        *)
(*   warm   addresses that have been accessed                              *)
(*   slots  storage slots that have been accessed                          *)
(*                                                                         *)
(* The machine is a stack of frames.  Its transitions are                  *)
(*   Begin   acceptance of a transaction                                   *)
(*   Enter   a message: refused, done at once, or executed in a new frame  *)
(*   Leave   the end of the execution in the topmost frame                 *)
(*   End     settlement of a transaction                                   *)
(* and whatever an execution does to the world in between.                 *)
(***************************************************************************)
EXTENDS Word

CONSTANTS Hash(_)            \* Keccak-256 of a byte sequence
         ,NewAddress(_, _)   \* address of the creation by an account with a nonce
         ,NewAddress2(_, _, _) \* address of the creation by an account with a salt and the hash of the init code
         ,OriginRule         \* whether the system contract protects the account of the transaction's origin

\* --- numbers --------------------------------------------------------------
RECURSIVE TrimFrom(_, _)
TrimFrom(w, i) == IF i > Len(w) THEN << >> ELSE IF w[i] # 0 THEN SubSeq(w, i, Len(w)) ELSE TrimFrom(w, i + 1)
Trim(w) == TrimFrom(w, 1)
P(x) == E(Pad32(x))
Plus(a, b) == IF a = << >> THEN b ELSE IF b = << >> THEN a ELSE Trim(Add(P(a), P(b)))
Minus(a, b) == IF b = << >> THEN a ELSE Trim(Sub(P(a), P(b)))
\* Products and quotients of numbers below 2^256, modulo 2^256.
Times(a, b) == Trim(Mul(P(a), P(b)))
Over(a, b) == Trim(Div(P(a), P(b)))
Less(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ a # b /\ Lt(P(a), P(b)))
N(n) == Trim(E(FromNat(n)))
\* Whether a product fits into 256 bits.
Fits(a, b) == a = << >> \/ b = << >> \/ Over(Times(a, b), b) = a
MinOf(a, b) == IF Less(a, b) THEN a ELSE b
MaxNonce == <<255, 255, 255, 255, 255, 255, 255, 255>>

\* --- worlds ---------------------------------------------------------------
NoOne == E([i \in 1..20 |-> 0])
NoHash == E([i \in 1..32 |-> 0])
NoSlots == [x \in {} |-> << >>]
EmptyAccount == [b |-> << >>, n |-> << >>, c |-> << >>, s |-> NoSlots]
At(w, a) == IF a \in DOMAIN w.acc THEN w.acc[a] ELSE EmptyAccount
Put(w, a, x) == [w EXCEPT !.acc = (a :> x) @@ @]
Balance(w, a) == At(w, a).b
Nonce(w, a) == At(w, a).n
Code(w, a) == At(w, a).c
Exists(w, a) == LET x == At(w, a) IN x.b # << >> \/ x.n # << >> \/ x.c # << >>
CodeHash(w, a) == IF Exists(w, a) THEN Hash(Code(w, a)) ELSE NoHash
SetBalance(w, a, v) == Put(w, a, [At(w, a) EXCEPT !.b = v])
SetNonce(w, a, v) == Put(w, a, [At(w, a) EXCEPT !.n = v])
SetCode(w, a, v) == Put(w, a, [At(w, a) EXCEPT !.c = v])
\* Storage is a function whose domain is the set of keys with non-zero values.
SetSlot(w, a, k, v) ==
  LET s == At(w, a).s
      t == IF v = << >> THEN [x \in DOMAIN s \ {k} |-> s[x]] ELSE (k :> v) @@ s
  IN Put(w, a, [At(w, a) EXCEPT !.s = t])
Log(w, a, d) == [w EXCEPT !.logs = Append(@, [a |-> a, d |-> d])]
Touch(w, as) == [w EXCEPT !.warm = @ \cup as]

\* What can be observed of a world.
Accounts(w) == { <<a, At(w, a).b, At(w, a).n, At(w, a).c, { <<k, At(w, a).s[k]>> : k \in DOMAIN At(w, a).s }>>
                 : a \in { x \in DOMAIN w.acc : Exists(w, x) \/ DOMAIN At(w, x).s # {} } }
\* Everything but what has been accessed.
SameState(v, w) == Accounts(v) = Accounts(w) /\ v.logs = w.logs

\* --- revisions, precompiled contracts ---------------------------------------
Istanbul == 0  Berlin == 1  London == 2  Paris == 3  Shanghai == 4  Cancun == 5
\* Number of the precompiled contract at an address, or 0.
Precompile(rev, a) ==
  IF SubSeq(a, 1, 19) # SubSeq(NoOne, 1, 19) THEN 0
  ELSE IF a[20] <= (IF rev >= Cancun THEN 10 ELSE 9) THEN a[20] ELSE 0
PrecompileAddresses(rev) == { E([NoOne EXCEPT ![20] = i]) : i \in 1..(IF rev >= Cancun THEN 10 ELSE 9) }
\* The artificial contracts that stand for the real ones (shims/go/geth/core/vm).
PrecompileFree(rev, i, input) == Len(input) = 0 \/ input[1] # 254
PrecompileCost(rev, i, input) == N((IF rev >= Cancun THEN 50 ELSE IF rev >= Berlin THEN 40 ELSE 30) + 100 * i + 3 * Len(input))
PrecompileFails(i, input) == Len(input) > 0 /\ input[1] = 255
PrecompileOut(i, input) == <<i>> \o input

\* --- results ----------------------------------------------------------------
\* why tells which rule made a message fail.
Failed(why) == [ok |-> FALSE, out |-> << >>, gas |-> << >>, ref |-> << >>, created |-> NoOne, err |-> FALSE, why |-> why]
Succeeded(out, gas, ref, created) == [ok |-> TRUE, out |-> out, gas |-> gas, ref |-> ref, created |-> created, err |-> FALSE, why |-> "ok"]

\* --- the system contract ------------------------------------------------------
DriverAddress == <<209, 0, 160, 30, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
SystemAddress == <<209, 0, 236, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
\* Selectors: setBalance(address,uint256), copyCode(address,address), swapCode(address,address),
\* setStorage(address,bytes32,bytes32), incNonce(address,uint256).
Method(sel) == CASE sel = <<227, 4, 67, 188>> -> "setBalance"
                 [] sel = <<214, 160, 199, 175>> -> "copyCode"
                 [] sel = <<7, 105, 11, 42>> -> "swapCode"
                 [] sel = <<57, 229, 3, 171>> -> "setStorage"
                 [] sel = <<121, 190, 173, 56>> -> "incNonce"
                 [] OTHER -> "none"
Arg(args, i) == SubSeq(args, 32 * (i - 1) + 1, 32 * i)
ArgAddress(args, i) == SubSeq(args, 32 * (i - 1) + 13, 32 * i)

\* Whether it protects the account of the driver.
DriverRule == TRUE
\* Result and world of a call of the system contract with some gas.
System(w, origin, sender, static, input, gas) ==
  LET m == IF Len(input) < 4 THEN "none" ELSE Method(SubSeq(input, 1, 4))
      args == SubSeq(input, 5, Len(input))
      Refuse(why) == [w |-> w, res |-> Failed(why)]
      base == CASE m \in {"setBalance", "incNonce"} -> 9000 [] m = "copyCode" -> 32000 [] m = "swapCode" -> 64000 [] OTHER -> 20000
      len == IF m = "setStorage" THEN 96 ELSE 64
      a == ArgAddress(args, 1)
      b == ArgAddress(args, 2)
      v == Trim(Arg(args, 2))
      codes == CASE m = "copyCode" -> 203 * Len(Code(w, b))
                 [] m = "swapCode" -> (203 * (Len(Code(w, a)) + Len(Code(w, b)))) \div 2
                 [] OTHER -> 0
      cost == N(base + codes)
  IN IF sender # DriverAddress THEN Refuse("system-sender")
     ELSE IF static THEN Refuse("system-static")
     ELSE IF m = "none" THEN Refuse("system-method")
     ELSE IF Len(args) # len THEN Refuse("system-length")
     ELSE IF Less(gas, cost) THEN Refuse("system-gas")
     ELSE IF DriverRule /\ m \in {"setBalance", "incNonce"} /\ a = sender THEN Refuse("system-driver")
     ELSE IF OriginRule /\ m \in {"setBalance", "incNonce"} /\ a = origin THEN Refuse("system-origin")
     ELSE IF m = "incNonce" /\ (v = << >> \/ Len(v) > 1) THEN Refuse("system-nonce")
     ELSE [res |-> Succeeded(<< >>, Minus(gas, cost), << >>, NoOne),
           w |-> CASE m = "setBalance" -> SetBalance(w, a, v)
                   [] m = "copyCode" -> IF a = b THEN w ELSE SetCode(w, a, Code(w, b))
                   [] m = "swapCode" -> IF a = b THEN w ELSE SetCode(SetCode(w, a, Code(w, b)), b, Code(w, a))
                   [] m = "setStorage" -> SetSlot(w, a, v, Trim(Arg(args, 3)))
                   [] m = "incNonce" -> SetNonce(w, a, Plus(Nonce(w, a), v))]

\* --- messages -----------------------------------------------------------------
\* Kinds of messages, numbered as the implementation numbers them.
CALL == 0  DELEGATE == 1  STATIC == 2  CALLCODE == 3  CREATE == 4  CREATE2 == 5
IsCreate(kind) == kind \in {CREATE, CREATE2}
MaxDepth == 1024

\* Moves a value; does nothing where that is impossible.
CanPay(w, from, to, v) ==
  /\ ~Less(Balance(w, from), v)
  /\ from = to \/ ~AddOverflows(P(Balance(w, to)), P(v))
Pay(w, from, to, v) ==
  IF v = << >> \/ from = to THEN w
  ELSE LET w1 == SetBalance(w, from, Minus(Balance(w, from), v)) IN SetBalance(w1, to, Plus(Balance(w1, to), v))

(***************************************************************************)
(* Entering a message m = [kind, sender, rcpt, codeaddr, value, input,     *)
(* gas, salt] at a depth (0 for that of a transaction) from a read-only    *)
(* frame or another one.  The answer is                                    *)
(*   [t = "done", w, res]     the message is refused or executed at once   *)
(*   [t = "run", w, f]        the message is executed in the frame f       *)
(***************************************************************************)
Enter(w, rev, origin, depth, static, m) ==
  LET create == IsCreate(m.kind)
      init == Hash(m.input)
      created == IF m.kind = CREATE THEN NewAddress(m.sender, Nonce(w, m.sender))
                 ELSE IF m.kind = CREATE2 THEN NewAddress2(m.sender, m.salt, init) ELSE NoOne
      rcpt == IF create THEN created ELSE m.rcpt
      indirect == m.kind \in {DELEGATE, CALLCODE}
      from == IF indirect THEN m.codeaddr ELSE m.rcpt      \* where the code is
      ro == static \/ m.kind = STATIC
      \* the creation is accounted for before anything that can be rolled back
      w1 == IF create THEN SetNonce(IF rev >= Berlin THEN Touch(w, {created}) ELSE w, m.sender, Plus(Nonce(w, m.sender), <<1>>)) ELSE w
      collision == create /\ (Nonce(w, created) # << >> \/ Code(w, created) # << >>)
      w2 == IF create THEN SetNonce(w1, created, <<1>>) ELSE w1
      pays == m.kind \notin {STATIC, DELEGATE}
      w3 == IF pays THEN Pay(w2, m.sender, rcpt, m.value) ELSE w2
      \* (snapshot, result) of messages that are executed at once: all or nothing
      pre == IF create THEN 0 ELSE Precompile(rev, from)
      cost == PrecompileCost(rev, pre, m.input)
      sys == System(w3, origin, m.sender, ro, m.input, m.gas)
      Done(u, res) == [t |-> "done", w |-> u, res |-> res]
  IN IF depth > MaxDepth THEN Done(w, Failed("depth"))
     ELSE IF create /\ Nonce(w, m.sender) = MaxNonce THEN Done(w, Failed("nonce"))
     ELSE IF collision THEN Done(w1, Failed("collision"))
     ELSE IF pays /\ m.value # << >> /\ ~CanPay(w2, m.sender, rcpt, m.value) THEN Done(w1, Failed("funds"))
     ELSE IF ~create /\ m.rcpt = SystemAddress THEN Done(IF sys.res.ok THEN sys.w ELSE w1, sys.res)
     ELSE IF pre # 0 THEN
       IF ~PrecompileFree(rev, pre, m.input) \/ Less(m.gas, cost) THEN Done(w1, Failed("precompile-gas"))
       ELSE IF PrecompileFails(pre, m.input) THEN Done(w1, Failed("precompile"))
       ELSE Done(w3, Succeeded(PrecompileOut(pre, m.input), Minus(m.gas, cost), << >>, NoOne))
     ELSE IF m.kind = CALL /\ ~Exists(w3, rcpt) THEN Done(w3, Succeeded(<< >>, m.gas, << >>, NoOne))
     ELSE [t |-> "run", w |-> w3,
           f |-> [kind |-> m.kind, static |-> ro, depth |-> depth, gas |-> m.gas, rcpt |-> rcpt, sender |-> m.sender, input |-> m.input,
                  value |-> m.value, code |-> IF create THEN m.input ELSE Code(w2, from),
                  hash |-> IF create THEN init ELSE CodeHash(w2, from),
                  saved |-> w1]]

MaxCodeSize == 24576
\* The end of the execution in frame f with result r = [ok, out, gas, ref, err]:
\* the world and the result of the message.
Leave(w, rev, f, r) ==
  LET create == IsCreate(f.kind)
      deposit == N(200 * Len(r.out))
      back == f.saved
      Res(ok) == [ok |-> ok, out |-> r.out, gas |-> r.gas, ref |-> r.ref, created |-> IF create THEN f.rcpt ELSE NoOne, err |-> r.err, why |-> "execution"]
  IN IF r.err \/ ~r.ok THEN [w |-> back, res |-> Res(FALSE)]
     ELSE IF ~create THEN [w |-> w, res |-> Res(TRUE)]
     ELSE IF Len(r.out) > MaxCodeSize THEN [w |-> back, res |-> Failed("code-size")]
     ELSE IF rev >= London /\ Len(r.out) > 0 /\ r.out[1] = 239 THEN [w |-> back, res |-> Failed("code-prefix")]
     ELSE IF Less(r.gas, deposit) THEN [w |-> back, res |-> Failed("code-deposit")]
     ELSE [w |-> SetCode(w, f.rcpt, r.out), res |-> [Res(TRUE) EXCEPT !.gas = Minus(r.gas, deposit)]]

\* --- transactions ---------------------------------------------------------------
Count(s, Test(_)) == FoldLeft(LAMBDA n, x : IF Test(x) THEN n + 1 ELSE n, 0, s)
Intrinsic(tx) ==
  LET z == Count(tx.input, LAMBDA x : x = 0)
      keys == FoldLeft(LAMBDA n, x : n + Len(x.k), 0, tx.al)
  IN N((IF tx.create THEN 53000 ELSE 21000) + (4 * z) + (16 * (Len(tx.input) - z))
       + (IF tx.hasal THEN (2400 * Len(tx.al)) + (1900 * keys) ELSE 0))
MaxInitCodeSize == 2 * MaxCodeSize

Price(tx, gas) == Times(gas, tx.price)

\* Rules that reject a transaction without any effect.
Rejections(w, rev, tx) ==
  (IF tx.nonce # Nonce(w, tx.sender) THEN {"nonce"} ELSE {})
  \cup (IF Nonce(w, tx.sender) = MaxNonce THEN {"nonce-overflow"} ELSE {})
  \cup (IF Code(w, tx.sender) # << >> THEN {"sender-code"} ELSE {})
  \cup (IF ~Fits(tx.gas, tx.price) \/ Less(Balance(w, tx.sender), Price(tx, tx.gas)) THEN {"gas-funds"} ELSE {})
  \cup (IF rev >= Shanghai /\ tx.create /\ Len(tx.input) > MaxInitCodeSize THEN {"init-code-size"} ELSE {})

Prepared(w, rev, tx) ==
  IF rev < Berlin \/ ~tx.hasal THEN w
  ELSE [w EXCEPT !.warm = @ \cup {tx.sender} \cup (IF tx.create THEN {} ELSE {tx.to}) \cup PrecompileAddresses(rev) \cup { tx.al[i].a : i \in 1..Len(tx.al) },
                 !.slots = @ \cup UNION { { <<tx.al[i].a, tx.al[i].k[j]>> : j \in 1..Len(tx.al[i].k) } : i \in 1..Len(tx.al) }]

NoReceipt == [ok |-> FALSE, out |-> << >>, used |-> << >>, hasc |-> FALSE, c |-> << >>, logs |-> << >>, err |-> FALSE]
Burned(tx) == [NoReceipt EXCEPT !.used = tx.gas]

(***************************************************************************)
(* The begin of a transaction on a world w:                                *)
(*   [t = "end", w, rcpt]   it is rejected, or cannot pay for its data     *)
(*   [t = "msg", w, m]      the message m is to be entered                 *)
(***************************************************************************)
Begin(w, rev, tx) ==
  LET w1 == SetBalance(w, tx.sender, Minus(Balance(w, tx.sender), Price(tx, tx.gas)))
      w2 == Prepared(w1, rev, tx)
      w3 == IF tx.create THEN w2 ELSE SetNonce(w2, tx.sender, Plus(Nonce(w2, tx.sender), <<1>>))
  IN IF Rejections(w, rev, tx) # {} THEN [t |-> "end", w |-> w, rcpt |-> NoReceipt, why |-> Rejections(w, rev, tx)]
     ELSE IF Less(tx.gas, Intrinsic(tx)) THEN [t |-> "end", w |-> w1, rcpt |-> Burned(tx), why |-> {"intrinsic"}]
     ELSE [t |-> "msg", w |-> w3,
           m |-> [kind |-> IF tx.create THEN CREATE ELSE CALL, sender |-> tx.sender, rcpt |-> IF tx.create THEN NoOne ELSE tx.to, codeaddr |-> NoOne,
                  value |-> tx.value, input |-> tx.input, gas |-> Minus(tx.gas, Intrinsic(tx)), salt |-> NoHash]]

\* The end of a transaction whose message had result r: world and receipt.
End(w, rev, tx, r) ==
  LET kept == IF tx.sender = NoOne THEN r.gas ELSE Minus(r.gas, Over(r.gas, <<10>>))
      cap == Over(Minus(tx.gas, kept), IF rev >= London THEN <<5>> ELSE <<2>>)
      left == IF r.ok THEN Plus(kept, MinOf(r.ref, cap)) ELSE kept
  IN IF r.err THEN [w |-> w, rcpt |-> [Burned(tx) EXCEPT !.err = TRUE]]
     ELSE [w |-> SetBalance(w, tx.sender, Plus(Balance(w, tx.sender), Price(tx, left))),
           rcpt |-> [ok |-> r.ok, out |-> r.out, used |-> Minus(tx.gas, left), hasc |-> tx.create, c |-> r.created, logs |-> w.logs, err |-> FALSE]]

\* --- the machine as a whole -------------------------------------------------------
\* A machine is [w, rev, tx, st, mode, m, res, rcpt]: the stack st of frames, and
\* what is going on: "enter" (the message m), "run" (the topmost frame), "result"
\* (the result res reaches the topmost frame or, without one, the transaction) or
\* "end" (with the receipt rcpt).
Machine(w, rev, tx) ==
  LET b == Begin(w, rev, tx)
  IN IF b.t = "end" THEN [w |-> b.w, rev |-> rev, tx |-> tx, st |-> << >>, mode |-> "end", m |-> << >>, res |-> << >>, rcpt |-> b.rcpt, why |-> b.why]
     ELSE [w |-> b.w, rev |-> rev, tx |-> tx, st |-> << >>, mode |-> "enter", m |-> b.m, res |-> << >>, rcpt |-> << >>, why |-> {}]
Top(k) == k.st[Len(k.st)]
MEnter(k) ==
  LET static == Len(k.st) > 0 /\ Top(k).static
      x == Enter(k.w, k.rev, k.tx.sender, Len(k.st), static, k.m)
  IN IF x.t = "done" THEN [k EXCEPT !.w = x.w, !.mode = "result", !.res = x.res]
     ELSE [k EXCEPT !.w = x.w, !.mode = "run", !.st = Append(@, x.f)]
MLeave(k, r) ==
  LET x == Leave(k.w, k.rev, Top(k), r)
  IN [k EXCEPT !.w = x.w, !.st = SubSeq(@, 1, Len(@) - 1), !.mode = "result", !.res = x.res]
MResult(k) ==
  IF Len(k.st) > 0 THEN [k EXCEPT !.mode = "run"]
  ELSE LET x == End(k.w, k.rev, k.tx, k.res) IN [k EXCEPT !.w = x.w, !.mode = "end", !.rcpt = x.rcpt]
\* What the destruction of an account for the benefit of another does.
Destroyed(w, rev, a, b) ==
  LET v == Balance(w, a)
      w1 == IF a = b THEN w ELSE SetBalance(w, b, Plus(Balance(w, b), v))
  IN [SetBalance(w1, a, << >>) EXCEPT !.gone = @ \cup {a}]
===============================================================================
