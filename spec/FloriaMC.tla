------------------------------- MODULE FloriaMC -------------------------------
(***************************************************************************)
(* Exploration of the machine of Floria: all transactions over a small set *)
(* of accounts whose executions do up to Length of the things of Ops, with *)
(* symbolic addresses of creations and a small limit of the depth.         *)
(*                                                                         *)
(* The behaviours are printed, to be replayed into the real processor; the *)
(* script of a behaviour names the indexes of Ops.                         *)
(***************************************************************************)
EXTENDS Floria, Functions, FiniteSets, Json

CONSTANTS Length     \* most things done by the executions of a transaction
         ,Limit      \* deepest frame
         ,Show      \* whether to print the behaviours

\* --- symbolic address functions ----------------------------------------------
Sym(x) == NoHash
LastOf(n) == IF n = << >> THEN 0 ELSE n[Len(n)]
SymAddress(a, n) == <<17, LastOf(n), a[19], a[20], a[1], a[2]>> \o SubSeq(NoOne, 1, 14)
SymAddress2(a, salt, h) == <<18, LastOf(salt), a[19], a[20], a[1], a[2]>> \o SubSeq(NoOne, 1, 14)

\* --- the universe ---------------------------------------------------------------
Addr(a, b) == SubSeq(NoOne, 1, 18) \o <<a, b>>
Alice == Addr(161, 1)  Bob == Addr(176, 2)  Con == Addr(192, 4)  Don == Addr(208, 5)  New == Addr(17, 34)
Echo == Addr(0, 4)
A(b, n, c) == [b |-> N(b), n |-> N(n), c |-> c, s |-> NoSlots]
World0 == [acc |-> (Alice :> A(5000000, 0, << >>)) @@ (Bob :> A(500, 3, << >>)) @@ (Con :> A(3, 1, <<96, 1>>)) @@ (Don :> A(1, 1, <<96, 2>>))
                   @@ (DriverAddress :> A(50, 1, <<96, 119>>)) @@ (SystemAddress :> A(0, 1, <<0>>)),
           logs |-> << >>, warm |-> {}, slots |-> {}, tr |-> {}, gone |-> {}]
Tx(to, value) == [sender |-> Alice, to |-> to, create |-> to = << >>, nonce |-> << >>, input |-> << >>, value |-> N(value), gas |-> N(1000000), price |-> <<1>>, hasal |-> FALSE, al |-> << >>]
Txs == << Tx(Con, 2), Tx(<< >>, 2), Tx(DriverAddress, 0) >>

Word5 == [NoHash EXCEPT ![32] = 5]
SetStorage5 == <<57, 229, 3, 171>> \o Pad32(Don) \o Word5 \o Word5
IncNonce5 == <<121, 190, 173, 56>> \o Pad32(Don) \o Word5

\* Further things, see GethAdapterMC.
More == << >>

\* What executions do: [o |-> "sstore"], [o |-> "log"], messages and ends.
Msg(kind, to, v, input, gas) == [o |-> "call", kind |-> kind, to |-> to, value |-> N(v), input |-> input, gas |-> N(gas)]
Ends == << [o |-> "ret", ok |-> TRUE, out |-> <<1, 2>>, gas |-> TRUE], [o |-> "ret", ok |-> TRUE, out |-> <<239>>, gas |-> TRUE], [o |-> "ret", ok |-> TRUE, out |-> <<1>>, gas |-> FALSE],
           [o |-> "ret", ok |-> FALSE, out |-> <<7>>, gas |-> TRUE], [o |-> "ret", ok |-> FALSE, out |-> << >>, gas |-> FALSE] >>
Ops == << [o |-> "sstore"], [o |-> "log"],
          Msg(CALL, Don, 1, << >>, 400000), Msg(CALL, Con, 2, << >>, 400000), Msg(CALL, Bob, 9, << >>, 400000), Msg(CALL, New, 1, << >>, 300), Msg(CALL, Echo, 1, <<9>>, 400000), Msg(CALL, Echo, 1, <<255>>, 400000),
          Msg(STATIC, Don, 0, << >>, 400000), Msg(DELEGATE, Don, 0, << >>, 400000), Msg(CALLCODE, Don, 1, << >>, 400000), Msg(DELEGATE, Echo, 0, <<8>>, 400000),
          Msg(CREATE, NoOne, 1, <<3>>, 400000), Msg(CREATE, NoOne, 0, <<4>>, 200), Msg(CREATE2, NoOne, 1, <<3>>, 400000),
          Msg(CALL, DriverAddress, 0, << >>, 400000), Msg(CALL, SystemAddress, 0, SetStorage5, 100000), Msg(CALL, SystemAddress, 1, IncNonce5, 100000) >> \o Ends
Offered == Ops \o More

ASSUME PrintT(ToJson([ops |-> Offered, txs |-> Txs, world |-> SetToSeq(Accounts(World0))]))

VARIABLES mach   \* the machine
         ,begun  \* the open messages, and the worlds at their entries
         ,todo   \* what may still be done
         ,done   \* indexes of what has been done
         ,from   \* which transaction
vars == <<mach, begun, todo, done, from>>

Init ==
  \E t \in 1..Len(Txs), rev \in {Istanbul, London, Cancun} :
    LET k == TLCEval(Machine(World0, rev, Txs[t]))
    IN /\ mach = k /\ begun = (IF k.mode = "enter" THEN <<[w |-> k.w, m |-> k.m]>> ELSE << >>) /\ todo = Length /\ done = << >> /\ from = t

EnterMessage == /\ mach.mode = "enter"
                /\ mach' = TLCEval(MEnter(mach))
                /\ UNCHANGED <<begun, todo, done, from>>
\* The message that the topmost execution sends (as interpreters do).
MessageOf(x) ==
  LET f == Top(mach)
      g == MinOf(x.gas, f.gas)
  IN [kind |-> x.kind, gas |-> g, input |-> x.input, salt |-> NoHash,
      value |-> IF f.static \/ x.kind = STATIC THEN << >> ELSE IF x.kind = DELEGATE THEN f.value ELSE x.value,
      sender |-> IF x.kind = DELEGATE THEN f.sender ELSE f.rcpt,
      rcpt |-> IF x.kind \in {DELEGATE, CALLCODE} THEN f.rcpt ELSE IF IsCreate(x.kind) THEN NoOne ELSE x.to,
      codeaddr |-> IF x.kind \in {DELEGATE, CALLCODE} THEN x.to ELSE NoOne]
Spend(f, g) == [f EXCEPT !.gas = Minus(@, g)]
Do(i) ==
  LET x == Offered[i]
      f == Top(mach)
  IN /\ mach.mode = "run" /\ todo > 0
     /\ (f.static => x.o \notin {"sstore", "log", "destroy"} /\ ~(x.o = "call" /\ IsCreate(x.kind)))
     /\ todo' = todo - 1 /\ done' = Append(done, i) /\ from' = from
     /\ CASE x.o = "sstore" -> /\ mach' = [mach EXCEPT !.w = SetSlot(@, f.rcpt, <<1>>, <<todo>>)]
                               /\ begun' = begun
          [] x.o = "log" -> /\ mach' = [mach EXCEPT !.w = Log(@, f.rcpt, <<todo>>)]
                            /\ begun' = begun
          [] x.o = "call" -> LET m == TLCEval(MessageOf(x))
                             IN /\ mach' = TLCEval([mach EXCEPT !.m = m, !.mode = "enter", !.st[Len(mach.st)] = Spend(@, m.gas)])
                                /\ begun' = Append(begun, [w |-> mach.w, m |-> m])
          [] x.o = "ret" -> /\ mach' = TLCEval(MLeave(mach, [ok |-> x.ok, out |-> x.out, gas |-> IF x.gas THEN f.gas ELSE << >>, ref |-> IF "ref" \in DOMAIN x THEN x.ref ELSE << >>, neg |-> "neg" \in DOMAIN x, err |-> FALSE]))
                            /\ begun' = begun
          [] x.o = "destroy" -> /\ mach' = TLCEval([mach EXCEPT !.w = Destroyed(@, mach.rev, f.rcpt, x.to)])
                                /\ begun' = begun
\* With nothing left to do, executions end.
Finish ==
  /\ mach.mode = "run" /\ todo = 0
  /\ mach' = TLCEval(MLeave(mach, [ok |-> TRUE, out |-> << >>, gas |-> Top(mach).gas, ref |-> << >>, err |-> FALSE]))
  /\ UNCHANGED <<begun, todo, done, from>>
Result ==
  /\ mach.mode = "result"
  /\ mach' = TLCEval(LET k == MResult(mach) IN IF k.mode = "run" THEN [k EXCEPT !.st[Len(k.st)].gas = Plus(@, mach.res.gas)] ELSE k)
  /\ begun' = SubSeq(begun, 1, Len(begun) - 1)
  /\ UNCHANGED <<todo, done, from>>
Stop == /\ mach.mode = "end" /\ UNCHANGED vars
        /\ (Show => PrintT(ToString(<<"RUN", mach.rev, from, done>>)))
Next == EnterMessage \/ (\E i \in 1..Len(Offered) : Do(i)) \/ Finish \/ Result \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* --- what has to hold -------------------------------------------------------------
Nat_(b) == FoldLeft(LAMBDA n, x : (256 * n) + x, 0, b)
Total(w) == FoldFunction(LAMBDA x, n : Nat_(x.b) + n, 0, w.acc)
\* Nothing but fees disappears, and nothing appears.
Conserved == Total(mach.w) + Nat_(IF mach.mode = "end" THEN mach.rcpt.used ELSE Txs[from].gas) = Total(World0)
\* Fees do not exceed what the gas limit costs.
Bounded == mach.mode = "end" => Nat_(mach.rcpt.used) <= Nat_(Txs[from].gas)
\* What a message that failed leaves behind: the nonce of its sender, where that was a creation.
WithoutNonces(w) == { <<x[1], x[2], x[4], x[5]>> : x \in { y \in Accounts(w) : y[2] # << >> \/ y[4] # << >> \/ y[5] # {} } }
Here == begun[Len(begun)]
Renumbered == { a \in DOMAIN Here.w.acc \cup DOMAIN mach.w.acc : At(Here.w, a).n # At(mach.w, a).n }
RolledBack == (mach.mode = "result" /\ ~mach.res.ok) =>
  /\ WithoutNonces(Here.w) = WithoutNonces(mach.w) /\ Here.w.logs = mach.w.logs
  /\ \A a \in Renumbered : IsCreate(Here.m.kind) /\ a = Here.m.sender /\ Nonce(mach.w, a) = Plus(Nonce(Here.w, a), <<1>>)
\* Read-only executions change nothing.
ReadOnly == (mach.mode = "result" /\ (Here.m.kind = STATIC \/ (Len(mach.st) > 0 /\ Top(mach).static))) => SameState(Here.w, mach.w)
\* Frames are never deeper than the limit.
Depths == \A i \in 1..Len(mach.st) : mach.st[i].depth = i - 1 /\ i - 1 <= Limit
\* Messages return no more gas than they were given, and the open ones are those of the stack.
GasBound == mach.mode = "result" => ~Less(Here.m.gas, mach.res.gas)
Nested == mach.mode # "end" => Len(begun) = Len(mach.st) + (IF mach.mode = "run" THEN 0 ELSE 1)
\* A creation that succeeds yields an account with nonce one or more and the returned code.
Created == (mach.mode = "result" /\ mach.res.ok /\ IsCreate(Here.m.kind)) =>
  LET a == mach.res.created IN a # NoOne /\ Nonce(mach.w, a) # << >> /\ Code(mach.w, a) = mach.res.out /\ Code(Here.w, a) = << >> /\ Nonce(Here.w, a) = << >>
\* Nonces never decrease and code is never replaced but by rolling back.
Monotonic == [][(mach'.mode # "result" \/ mach'.res.ok) =>
                 \A a \in DOMAIN mach.w.acc : ~Less(Nonce(mach'.w, a), Nonce(mach.w, a)) /\ (Code(mach.w, a) # << >> => Code(mach'.w, a) = Code(mach.w, a))]_vars
\* Every transaction ends.
Ends_ == <>(mach.mode = "end")
===============================================================================
