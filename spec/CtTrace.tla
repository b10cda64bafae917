------------------------------- MODULE CtTrace --------------------------------
(***************************************************************************)
(* Conformance of the rules of the conformance testing tool with Evm.      *)
(*                                                                         *)
(* Runs are recorded by applying all rules that apply to a state; besides  *)
(* what EvmTrace looks at, observations contain probes: the effect that    *)
(* the rules prescribe for a variation of the state the step starts in,    *)
(*   [g gas, ro read-only mode, rev revision (99: unknown), st status,     *)
(*    pc, n stack size (zero words are added or words removed at its       *)
(*    bottom), sd the account has self-destructed,                         *)
(*    rst status or what went wrong, rg gas, rr refund, rn stack size,     *)
(*    rt top of the stack, rpc, same nothing changed, hs]                  *)
(***************************************************************************)
EXTENDS EvmTrace

\* Positions that hold data of PUSH instructions.
DataPositions(code) ==
  FoldLeft(LAMBDA acc, i : << ScanByte(acc[1], code[i]), IF acc[1] > 0 THEN acc[2] \cup {i - 1} ELSE acc[2] >>,
           << 0, {} >>, E([i \in 1..Len(code) |-> i]))[2]

Varied(s, p) ==
  LET n == Len(s.stack)
  IN [s EXCEPT !.gas = p.g, !.pc = p.pc,
               !.stack = IF p.n >= n THEN E([i \in 1..(p.n - n) |-> Zero]) \o @ ELSE SubSeq(@, (n - p.n) + 1, n)]

ProbeOK(X, s, p) ==
  IF p.rev = 99 THEN p.rst = "fail"
  ELSE IF p.st # "run" THEN p.rst = p.st /\ p.same
  ELSE IF p.pc \in DataPositions(X.code) THEN p.rst = "run" /\ p.same
  ELSE LET X1 == [X EXCEPT !.rev = p.rev, !.static = p.ro, !.destructed = p.sd]
           s1 == TLCEval(Varied(s, p))
           t == TLCEval(Exec(X1, s1))
           calls == \E i \in 1..Len(t.eff) : t.eff[i].t = "call"
           gone == p.sd \/ \E i \in 1..Len(t.eff) : t.eff[i].t = "sd"
       IN IF t.status = "fail" THEN p.rst = "fail"
          ELSE IF calls THEN p.rst = "call" /\ p.rn = Len(t.stack) /\ p.rpc = t.pc /\ p.hs = gone
          ELSE /\ p.rst = t.status /\ p.rg = t.gas /\ p.rr = t.ref
               /\ p.hs = gone
               /\ (t.status = "run") => /\ p.rn = Len(t.stack)
                                        /\ p.rpc = t.pc
                                        /\ (p.rn > 0) => Pad32(p.rt) = S(t, 0)

ProbesOK ==
  IF vPos < 0 \/ vPos >= Len(Runs[vRun].e) \/ "probes" \notin DOMAIN Runs[vRun].e[vPos + 1] THEN TRUE
  ELSE LET P == Runs[vRun].e[vPos + 1].probes
           s == [vState EXCEPT !.eff = << >>]
           B == {i \in 1..Len(P) : ~ProbeOK(Case, s, P[i])}
       IN \A i \in B : LET X1 == [Case EXCEPT !.rev = IF P[i].rev = 99 THEN 5 ELSE P[i].rev, !.static = P[i].ro, !.destructed = P[i].sd]
                           s1 == TLCEval(Varied(s, P[i]))
                       IN PrintT(ToString(<<"BAD", Case.id, "probe", vPos + 1, NameAt(Case, s1), {P[i].rst}, Brief(Exec(X1, s1)), [code |-> -1, probe |-> P[i]]>>))
CtNext == ProbesOK /\ Next
================================================================================
