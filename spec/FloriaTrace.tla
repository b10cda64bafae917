------------------------------ MODULE FloriaTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded transactions of the real processor with Floria. *)
(*                                                                         *)
(* CASES and RUNS (environment variables) name ndjson files.  A case is    *)
(* [id, rev, tx, more, ...], a run [id, ev] the events of its execution    *)
(* with the world at each of them.  Every first difference of a run is     *)
(* reported by a line <<"BAD", id, event, kind, fields, what, why, ...>>.  *)
(***************************************************************************)
EXTENDS Floria, Keccak, Json, IOUtils

\* Addresses of creations: hash of the recursive length prefix encoding of creator and nonce ...
Rlp(n) == IF Len(n) = 1 /\ n[1] < 128 THEN n ELSE <<128 + Len(n)>> \o n
CreateHash(a, n) == LET l == <<148>> \o a \o Rlp(n) IN SubSeq(Keccak256(<<192 + Len(l)>> \o l), 13, 32)
\* ... or of creator, salt and the hash of the init code.
Create2Hash(a, salt, h) == SubSeq(Keccak256(<<255>> \o a \o salt \o h), 13, 32)

Cases == ndJsonDeserialize(IOEnv.CASES)
Runs == ndJsonDeserialize(IOEnv.RUNS)

\* Whether the kind of a frame is shown (not by the geth adapter, see GethAdapterTrace).
KindShown == TRUE

\* Status of a change of a slot with an original, a current and a new value (0, 1: assigned, added, ...).
Status(o, c, n) ==
  CASE c = n -> 0
    [] c # n /\ o = c /\ o = << >> -> 1
    [] c # n /\ o = c /\ o # << >> /\ n = << >> -> 2
    [] c # n /\ o = c /\ o # << >> /\ n # << >> -> 3
    [] c # n /\ o # c /\ o # << >> /\ c = << >> /\ n # o -> 4
    [] c # n /\ o # c /\ o # << >> /\ c # << >> /\ n = << >> -> 5
    [] c # n /\ o # c /\ o # << >> /\ c = << >> /\ n = o -> 6
    [] c # n /\ o # c /\ o = << >> /\ n = << >> -> 7
    [] c # n /\ o # c /\ o # << >> /\ c # << >> /\ n = o -> 8
    [] OTHER -> 0
SlotIn(w, a, k) == LET s == At(w, a).s IN IF k \in DOMAIN s THEN s[k] ELSE << >>

VARIABLES vRun, vPos, vMach, vSeen, vCat
         ,vOrig   \* the world at the begin of the transaction
vars == <<vRun, vPos, vMach, vSeen, vCat, vOrig>>
View == <<vRun, vPos>>

Case == Cases[vRun]
Txs == <<Case.tx>> \o Case.more

\* --- worlds as recorded ------------------------------------------------------
Slots(s) == FoldLeft(LAMBDA f, e : (e[1] :> e[2]) @@ f, NoSlots, s)
World(d) ==
  [acc |-> FoldLeft(LAMBDA f, x : (x.a :> [b |-> x.b, n |-> x.n, c |-> x.c, s |-> Slots(x.s)]) @@ f, NoSlots, d.acc),
   tr |-> { d.tr[i] : i \in 1..Len(d.tr) }, gone |-> { d.gone[i] : i \in 1..Len(d.gone) },
   logs |-> d.logs, warm |-> { d.warm[i] : i \in 1..Len(d.warm) }, slots |-> { d.slots[i] : i \in 1..Len(d.slots) }]
WorldDiffs(v, w) ==
  LET A == Accounts(v)  B == Accounts(w)
  IN IF A = B /\ v.logs = w.logs /\ v.warm = w.warm /\ v.slots = w.slots /\ v.tr = w.tr /\ v.gone = w.gone THEN {}
     ELSE LET as == { x[1] : x \in A \cup B }
          IN (IF \E a \in as : At(v, a).b # At(w, a).b THEN {"balance"} ELSE {})
             \cup (IF \E a \in as : At(v, a).n # At(w, a).n THEN {"nonce"} ELSE {})
             \cup (IF \E a \in as : At(v, a).c # At(w, a).c THEN {"code"} ELSE {})
             \cup (IF \E a \in as : At(v, a).s # At(w, a).s THEN {"storage"} ELSE {})
             \cup (IF v.logs # w.logs THEN {"logs"} ELSE {})
             \cup (IF v.warm # w.warm THEN {"warm"} ELSE {})
             \cup (IF v.slots # w.slots THEN {"slots"} ELSE {})
             \cup (IF v.tr # w.tr THEN {"transient"} ELSE {})
             \cup (IF v.gone # w.gone THEN {"destroyed"} ELSE {})

\* --- the machine between events ------------------------------------------------
RECURSIVE Settle(_)
Settle(k) == IF k.mode = "enter" THEN Settle(MEnter(k))
             ELSE IF k.mode = "result" /\ Len(k.st) = 0 THEN MResult(k)
             ELSE k
\* What a message is about.
Category(rev, m) == IF IsCreate(m.kind) THEN "create"
                    ELSE IF m.rcpt = SystemAddress THEN "system"
                    ELSE IF Precompile(rev, IF m.kind \in {DELEGATE, CALLCODE} THEN m.codeaddr ELSE m.rcpt) # 0 THEN "precompile"
                    ELSE "call"
TxCategory(k) == IF k.m = << >> THEN "rejected" ELSE Category(k.rev, k.m)
FrameCategory(f) == IF IsCreate(f.kind) THEN "create" ELSE "call"

Dif(b, name) == IF b THEN {} ELSE {name}
Fields(k, o) ==
  CASE o.e = "enter" ->
         IF k.mode # "run" THEN {"executed"}
         ELSE LET f == Top(k)
              IN Dif(~KindShown \/ o.kind = f.kind, "kind") \cup Dif(o.static = f.static, "static") \cup Dif(o.depth = f.depth, "depth") \cup Dif(o.gas = f.gas, "gas")
                 \cup Dif(o.rcpt = f.rcpt, IF IsCreate(f.kind) THEN "created" ELSE "recipient") \cup Dif(o.sender = f.sender, "sender") \cup Dif(o.input = f.input \/ IsCreate(f.kind), "input")
                 \cup Dif(o.value = f.value, "value") \cup Dif(o.code = f.code, "runcode") \cup Dif(o.hash = f.hash, "codehash") \cup Dif(o.env, "environment")
    [] o.e = "result" ->
         IF k.mode # "result" THEN {"unexecuted"}
         ELSE LET r == k.res
              IN Dif(o.err = r.err, "error")
                 \cup IF r.err THEN {} ELSE
                      Dif(o.ok = r.ok, "success") \cup Dif(o.gas = r.gas, "gas") \cup Dif(o.out = r.out, "output")
                      \cup IF r.ok THEN Dif(o.ref = r.ref, "refund") \cup Dif(r.created = NoOne \/ o.created = r.created, "created") ELSE {}
    [] o.e = "end" ->
         IF k.mode # "end" THEN {"unexecuted"}
         ELSE LET r == k.rcpt
              IN Dif(~o.bad, "snapshot") \cup Dif(o.err = r.err, "error") \cup Dif(o.used = r.used, "used") \cup Dif(o.blob = << >>, "blob")
                 \cup Dif(o.ok = r.ok, "success")
                 \cup Dif(o.logs = r.logs, "receipt-logs")
                 \cup IF r.ok THEN Dif(o.out = r.out, "output") \cup Dif(o.hasc = r.hasc /\ (~r.hasc \/ o.c = r.c), "created") ELSE {}
    [] o.e = "look" -> Dif(o.ok, "view")
    [] o.e = "tx" -> {}
    [] OTHER -> IF k.mode # "run" THEN {"unexpected"} ELSE {}

\* What the executing code does to the world.
Act(k, o) == CASE o.e = "sstore" -> [k EXCEPT !.w = SetSlot(@, Top(k).rcpt, o.k, o.v)]
               [] o.e = "log" -> [k EXCEPT !.w = Log(@, Top(k).rcpt, o.d)]
               [] o.e = "tstore" -> LET a == Top(k).rcpt
                                    IN [k EXCEPT !.w.tr = { x \in @ : x[1] # a \/ x[2] # o.k } \cup (IF o.v = << >> THEN {} ELSE {<<a, o.k, o.v>>})]
               [] o.e = "access" -> [k EXCEPT !.w = Touch(@, {o.a})]
               [] o.e = "slot" -> [k EXCEPT !.w = [Touch(@, {o.a}) EXCEPT !.slots = @ \cup {<<o.a, o.k>>}]]
               [] o.e = "destroy" -> [k EXCEPT !.w = Destroyed(@, k.rev, Top(k).rcpt, o.a)]
               [] o.e = "put" -> [k EXCEPT !.w = CASE o.kind = 1 -> SetBalance(@, o.a, o.v) [] o.kind = 2 -> SetNonce(@, o.a, o.v) [] o.kind = 3 -> SetCode(@, o.a, o.v) [] OTHER -> @]
               [] OTHER -> k
\* What it is told about it.
Told(k, o) ==
  CASE k.mode # "run" -> {}
    [] o.e = "sstore" -> LET a == Top(k).rcpt IN Dif(o.st = Status(SlotIn(vOrig, a, o.k), SlotIn(k.w, a, o.k), o.v), "status")
    [] o.e = "access" -> Dif(o.st = (o.a \in k.w.warm), "status")
    [] o.e = "slot" -> Dif(o.st = (<<o.a, o.k>> \in k.w.slots), "status")
    [] o.e = "destroy" -> Dif(o.st = (Top(k).rcpt \notin k.w.gone), "status")
    [] OTHER -> {}
Message(o) == [kind |-> o.kind, sender |-> o.sender, rcpt |-> o.rcpt, codeaddr |-> o.codeaddr, value |-> o.value, input |-> o.input, gas |-> o.gas, salt |-> o.salt]
After(k, o) == CASE o.e = "call" -> MEnter([k EXCEPT !.m = Message(o), !.mode = "enter"])
                 [] o.e = "leave" -> Settle(MLeave(k, [ok |-> o.ok, out |-> o.out, gas |-> o.gas, ref |-> o.ref, neg |-> o.neg, err |-> o.err]))
                 [] o.e = "result" -> MResult(k)
                 [] OTHER -> k
\* The message or frame an event's consequences are about.
CatOf(k, o) == CASE o.e = "call" -> Category(k.rev, Message(o))
                 [] o.e = "leave" -> FrameCategory(Top(k))
                 [] OTHER -> vCat

NoMachine == [mode |-> "none"]
Init == /\ vRun \in 1..Len(Runs)
        /\ vPos = 0 /\ vMach = NoMachine /\ vSeen = NoMachine /\ vCat = "tx" /\ vOrig = NoMachine

Why(k) == IF k.mode = "none" THEN {} ELSE IF k.res # << >> THEN {k.res.why} ELSE IF k.m = << >> THEN k.why ELSE {}
Show(k, o) == IF k.mode = "none" THEN << >>
              ELSE [mode |-> k.mode, res |-> k.res, rcpt |-> k.rcpt, why |-> k.why, top |-> IF Len(k.st) = 0 THEN << >> ELSE Top(k), acc |-> k.w.acc, logs |-> k.w.logs]

Next ==
  LET o == Runs[vRun].ev[vPos + 1]
      seen == IF o.same THEN vSeen ELSE TLCEval(World(o.w))
      first == o.e = "tx"
      k0 == IF first \/ vMach.mode # "run" THEN vMach ELSE TLCEval(Act(vMach, o))
      d == Fields(k0, o) \cup (IF first THEN {} ELSE Told(vMach, o)) \cup (IF first THEN (IF vMach.mode = "none" \/ Accounts(vMach.w) = Accounts(seen) THEN {} ELSE {"between"}) ELSE WorldDiffs(k0.w, seen))
      \* no gas used and the nonce of the sender as before: the transaction was rejected
      rejected == o.e = "end" /\ k0.mode # "none" /\ k0.m # << >> /\ o.used = << >> /\ "nonce" \in d
      k1 == TLCEval(IF first THEN Settle(Machine(seen, Case.rev, Txs[o.tx + 1])) ELSE After(k0, o))
  IN /\ vPos >= 0 /\ vPos < Len(Runs[vRun].ev)
     /\ vRun' = vRun
     /\ vOrig' = IF first THEN seen ELSE vOrig
     /\ IF d = {}
        THEN /\ vPos' = vPos + 1 /\ vMach' = k1 /\ vSeen' = seen
             /\ vCat' = IF first THEN TxCategory(k1) ELSE CatOf(k0, o)
        ELSE /\ PrintT(ToString(<<"BAD", Case.id, vPos + 1, o.e, d \cup (IF rejected THEN {"accepted"} ELSE {}), vCat, Why(k0), Len(IF k0.mode = "none" THEN << >> ELSE k0.st), Show(k0, o), o>>))
             /\ vPos' = -1 /\ vMach' = NoMachine /\ vSeen' = NoMachine /\ vCat' = "tx"
===============================================================================
