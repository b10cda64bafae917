------------------------------- MODULE EvmTrace -------------------------------
(***************************************************************************)
(* Conformance of recorded executions of a real interpreter with Evm.      *)
(*                                                                         *)
(* CASES and RUNS (environment variables) name ndjson files.  A run        *)
(*   [c     index of the case it executes,                                 *)
(*    tag   how it was recorded,                                           *)
(*    e     observations, one per batch of instructions,                   *)
(*    fin   outcomes of uninterrupted executions of the same case]         *)
(* is accepted if every observation is what Evm prescribes after the same  *)
(* number of instructions, and all outcomes are the prescribed outcome.    *)
(* Every difference is reported by a line <<"BAD", ...>>.                  *)
(***************************************************************************)
EXTENDS Evm, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Runs == ndJsonDeserialize(IOEnv.RUNS)

VARIABLES vRun,    \* run
          vPos,    \* observations checked so far; -1 when the run is settled
          vState,  \* state prescribed after them
          vEff     \* all effects so far
vars == <<vRun, vPos, vState, vEff>>
View == <<vRun, vPos>>

Case == Cases[Runs[vRun].c]

\* Status codes (EVMC) that name a reason for which an execution failed.
Codes(why) == UNION { CASE w = "oog" -> {3} [] w = "underflow" -> {7} [] w = "overflow" -> {6} [] w = "jump" -> {8}
                        [] w = "retcopy" -> {9} [] w = "static" -> {11} [] w = "undefined" -> {4, 5}
                        [] w = "initcode" -> {1, 3} : w \in why }
\* (-2: a result that says of an unsuccessful execution neither that it was
\* reverted nor why it failed.)
CodeOK(s, code) == CASE s.status \in {"stop", "ret"} -> code = 0
                     [] s.status = "rev" -> code \in {2, -2}
                     [] s.status = "fail" -> code \in Codes(s.why) \cup {-2}
                     [] s.status = "run" -> TRUE

Norm(x) ==
  CASE x.t = "call" -> [x EXCEPT !.rcpt = Pad32(@), !.sender = Pad32(@), !.codeaddr = Pad32(@), !.value = Pad32(@), !.salt = Pad32(@)]
    [] x.t \in {"sstore", "tstore"} -> [x EXCEPT !.k = Pad32(@), !.v = Pad32(@)]
    [] x.t = "log" -> [x EXCEPT !.topics = E([i \in 1..Len(@) |-> Pad32(@[i])])]
    [] x.t = "sd" -> [x EXCEPT !.to = Pad32(@)]
    [] OTHER -> x
NormAll(xs) == E([i \in 1..Len(xs) |-> Norm(xs[i])])
Words(ws) == E([i \in 1..Len(ws) |-> Pad32(ws[i])])

\* Equality of memory contents up to trailing zeros.
MemEq(a, b) ==
  LET n == Min2(Len(a), Len(b))
      Tail0(x) == \A i \in (n + 1)..Len(x) : x[i] = 0
  IN (a = b) \/ (SubSeq(a, 1, n) = SubSeq(b, 1, n) /\ Tail0(a) /\ Tail0(b))
ObservedMem(mem, md) == FoldLeft(LAMBDA m, d : MemWrite(m, d[1], d[2]), mem, md)

IsChange(x) == x.t # "call" \/ ~x.static \/ x.kind \in {"create", "create2"}

\* Fields in which observation o differs from state t, reached from state s.
Diffs(X, s, t, o) ==
  IF t.status = "fail"
  THEN (IF o.st # "fail" THEN {"status"} ELSE {})
       \cup (IF o.st = "fail" /\ ~CodeOK(t, o.code) THEN {"code"} ELSE {})
       \cup (IF o.st = "fail" /\ o.gas # GZero THEN {"failgas"} ELSE {})
       \cup (IF o.st = "fail" /\ Len(o.out) # 0 THEN {"failout"} ELSE {})
       \cup (IF X.static /\ \E i \in 1..Len(o.eff) : IsChange(o.eff[i]) THEN {"static"} ELSE {})
  ELSE (IF o.st # t.status THEN {"status"} ELSE {})
       \cup (IF ~CodeOK(t, o.code) THEN {"code"} ELSE {})
       \cup (IF o.gas # t.gas THEN {"gas"} ELSE {})
       \cup (IF o.ref # t.ref THEN {"refund"} ELSE {})
       \cup (IF t.status = "run" /\ o.pc # -1 /\ o.pc # t.pc THEN {"pc"} ELSE {})
       \cup (IF o.keep > Len(s.stack) \/ (SubSeq(s.stack, 1, o.keep) \o Words(o.top)) # t.stack THEN {"stack"} ELSE {})
       \cup (IF o.msz # t.msz THEN {"msize"} ELSE {})
       \cup (IF ~MemEq(ObservedMem(s.mem, o.md), t.mem) THEN {"memory"} ELSE {})
       \cup (IF t.status = "run" /\ (IF o.rc THEN o.ret ELSE s.ret) # t.ret THEN {"retdata"} ELSE {})
       \cup (IF t.status \in {"ret", "rev"} /\ o.out # t.out THEN {"output"} ELSE {})
       \cup (IF t.status = "stop" /\ Len(o.out) # 0 THEN {"output"} ELSE {})
       \cup (IF NormAll(o.eff) # t.eff THEN {"effects"} ELSE {})
       \cup (IF X.rev >= Berlin /\ SetOf(o.wa) # t.wa \ s.wa THEN {"warm"} ELSE {})
       \cup (IF X.rev >= Berlin /\ (SetOf(o.ws) # t.ws \ s.ws) THEN {"warm"} ELSE {})

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* Differences of an uninterrupted execution f that ends in state t with effects es.
FinDiffs(X, t, es, f) ==
  (IF ~CodeOK(t, f.code) THEN {"status"} ELSE {})
  \cup (IF f.gas # t.gas THEN {"gas"} ELSE {})
  \cup (IF t.status \in {"stop", "ret"} /\ f.ref # t.ref THEN {"refund"} ELSE {})
  \cup (IF f.out # t.out THEN {"output"} ELSE {})
  \cup (IF t.status = "fail"
        THEN (IF ~IsPrefixOf(es, NormAll(f.eff)) THEN {"effects"} ELSE {})
             \cup (IF X.static /\ \E i \in 1..Len(f.eff) : IsChange(f.eff[i]) THEN {"static"} ELSE {})
        ELSE IF NormAll(f.eff) # es THEN {"effects"} ELSE {})

Brief(s) == [status |-> s.status, why |-> s.why, pc |-> s.pc, gas |-> s.gas, ref |-> s.ref, msz |-> s.msz, n |-> Len(s.stack),
             top |-> IF Len(s.stack) = 0 THEN << >> ELSE S(s, 0), out |-> s.out, eff |-> s.eff, ret |-> s.ret]

Init == /\ vRun \in 1..Len(Runs)
        /\ vPos = 0
        /\ vState = Start(Cases[Runs[vRun].c])
        /\ vEff = << >>

Advance ==
  LET X == Case  o == Runs[vRun].e[vPos + 1]  name == NameAt(X, vState)
      s == [vState EXCEPT !.eff = << >>]
      t == TLCEval(ExecN(X, s, o.n))
      d == Diffs(X, s, t, o)
  IN /\ vPos >= 0 /\ vPos < Len(Runs[vRun].e)
     /\ IF d = {} /\ (o.n # 1 \/ vState.status # "run" \/ t.status = "fail" \/ StepOK(X, s, t))
        THEN vState' = t /\ vEff' = (IF t.status = "fail" THEN vEff ELSE vEff \o t.eff) /\ vPos' = vPos + 1
        ELSE /\ PrintT(ToString(<<"BAD", X.id, Runs[vRun].tag, vPos + 1, name, d, Brief(t), o>>))
             /\ vState' = vState /\ vEff' = vEff /\ vPos' = -1
     /\ vRun' = vRun

\* A run without recorded steps is taken to its end by the specification.
Proceed ==
  LET t == TLCEval(ExecN(Case, vState, 50))
  IN /\ vPos >= 0 /\ Len(Runs[vRun].e) = 0 /\ vState.status = "run" /\ vPos < 20000
     /\ vState' = t /\ vPos' = vPos + 50 /\ vEff' = t.eff /\ vRun' = vRun

\* Where the recorded steps end, the uninterrupted executions are compared.
Finish ==
  LET X == Case
      F == Runs[vRun].fin
      B == {i \in 1..Len(F) : FinDiffs(X, vState, vEff, F[i]) # {}}
  IN /\ vPos >= 0
     /\ IF Len(Runs[vRun].e) = 0 THEN vState.status # "run" \/ vPos >= 20000 ELSE vPos = Len(Runs[vRun].e)
     /\ vPos' = -1
     /\ IF vState.status = "run"
        THEN PrintT(ToString(<<"OPEN", X.id, Runs[vRun].tag>>))
        ELSE IF B = {} THEN TRUE
        ELSE LET f == F[CHOOSE i \in B : TRUE]
             IN PrintT(ToString(<<"BAD", X.id, f.tag, 0, "END", FinDiffs(X, vState, vEff, f), [Brief(vState) EXCEPT !.eff = vEff], f>>))
     /\ vRun' = vRun /\ vState' = vState /\ vEff' = vEff

Next == Advance \/ Proceed \/ Finish
Inv == vPos >= 0 => StateOK(Case, vState)
================================================================================
