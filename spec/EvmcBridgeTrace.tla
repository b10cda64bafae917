---------------------------- MODULE EvmcBridgeTrace ----------------------------
(***************************************************************************)
(* Checks what has passed the real bridge (drivers/go/evmcbridge).         *)
(***************************************************************************)
EXTENDS EvmcBridge, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.RUNS)
VARIABLES c, k, world, store, frames
vars == <<c, k, world, store, frames>>
Init == c \in 1..Len(Runs) /\ k = 0 /\ world = << >> /\ store = << >> /\ frames = << >>

Ev == Runs[c].ev[k + 1]
Table(l) == [a \in {l[i][1] : i \in 1..Len(l)} |-> LET t == l[CHOOSE i \in 1..Len(l) : l[i][1] = a] IN [nonce |-> t[2], bal |-> t[3], code |-> t[4], size |-> t[5], hash |-> t[6]]]
Executed(e) == IF Supported(e.p) THEN e.reached /\ e.m = Message(e.p) ELSE ~e.reached
Ended(e, p) == IF ~Supported(p) THEN e.res.err
               ELSE \E r \in Outcomes(e.ret) : e.res = r \/ (r.err /\ e.res.err)
WrongStep(e) ==
  IF ~Supported(e.p) THEN (IF e.err THEN {} ELSE {"error"}) \cup (IF e.reached THEN {"message"} ELSE {})
  ELSE IF ~e.reached THEN {"message"}
  ELSE (IF e.m = StepMessage(e.p, e.s, e.steps) THEN {} ELSE {"message"})
    \cup (IF e.err # StepFails(e.ret) THEN {"error"}
          ELSE IF e.err THEN {}
          ELSE (IF e.t = Stepped(e.s, e.ret) THEN {} ELSE {"state"}) \cup (IF e.same THEN {} ELSE {"rest"}))
\* what is wrong with the event
Bad(e) ==
  CASE e.e = "world" -> {}
    [] e.e = "run" -> (IF e.calls = << >> THEN {} ELSE {"calls"}) \cup (IF Executed(e) THEN {} ELSE {"message"})
    [] e.e = "host" -> (IF Reached(e) THEN {} ELSE {"calls"}) \cup (IF Answered(world, store, frames[Len(frames)], e) THEN {} ELSE {"answer"})
    [] e.e = "end" -> (IF e.calls = << >> THEN {} ELSE {"calls"}) \cup (IF Ended(e, frames[Len(frames)]) THEN {} ELSE {"result"})
    [] e.e = "step" -> WrongStep(e)
    [] OTHER -> {"panic"}

Next ==
  /\ k < Len(Runs[c].ev)
  /\ LET e == Ev
         bad == Bad(e)
     IN /\ c' = c
        /\ world' = (IF e.e = "world" THEN Table(e.accts) ELSE world)
        /\ store' = (IF e.e = "host" THEN Stored(store, e) ELSE store)
        /\ frames' = (IF e.e = "run" THEN Append(frames, e.p) ELSE IF e.e = "end" THEN SubSeq(frames, 1, Len(frames) - 1) ELSE frames)
        /\ IF bad = {} THEN k' = k + 1
           ELSE k' = 1000000 /\ PrintT(ToString(<<"BAD", Runs[c].id, k + 1, e.e, bad, e>>))
View == <<c, k>>
=============================================================================
