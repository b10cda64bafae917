------------------------------- MODULE EvmModel -------------------------------
(***************************************************************************)
(* The specification of the EVM explored on all programs of up to Size     *)
(* elements of an alphabet: what it says about every execution.            *)
(*                                                                         *)
(* BASE (environment variable) names a file with one case whose context is *)
(* used; the same programs are executed by the real interpreters.          *)
(***************************************************************************)
EXTENDS Evm, Json, IOUtils
CONSTANTS Size, Revs, Gases

Frame0 == ndJsonDeserialize(IOEnv.BASE)[1]
Alphabet == TLCEval(ndJsonDeserialize(IOEnv.ALPHABET)[1].alphabet)
VARIABLES mX, mS, mFrom
vars == <<mX, mS, mFrom>>

Programs == UNION {[1..n -> 1..Len(Alphabet)] : n \in 1..Size}
CodeOf2(p) == E(FoldLeft(LAMBDA c, i : c \o Alphabet[p[i]], << >>, [i \in 1..Len(p) |-> i]))
GOf(g) == <<0, g \div GBase, g % GBase>>

Init == /\ \E p \in Programs, r \in Revs, st \in BOOLEAN, g \in Gases :
             mX = [Frame0 EXCEPT !.code = CodeOf2(p), !.rev = r, !.static = st, !.gas = GOf(g)]
        /\ mS = Start(mX) /\ mFrom = mS

RECURSIVE Done(_, _, _)
Done(X, s, n) == IF n = 0 \/ s.status # "run" THEN s ELSE Done(X, TLCEval(Exec(X, s)), n - 1)
Outcome(X) == Done(X, Start(X), 400)

\* Instructions whose effect depends on the gas that is left.
Aware == {90, 85} \cup {Op(x) : x \in CallLike}
HasAware(code) == \E i \in 1..Len(code) : code[i] \in Aware

\* An execution that does not look at its gas needs a certain amount: with
\* exactly that it ends in the same way, with less it fails for lack of gas.
GasLaw(X, t) ==
  LET used == GSubG(X.gas, t.gas)
      exact == Outcome([X EXCEPT !.gas = used])
      less == Outcome([X EXCEPT !.gas = GSub(used, 1)])
  IN /\ exact.status = t.status /\ exact.stack = t.stack /\ exact.out = t.out /\ exact.eff = t.eff /\ exact.gas = GZero
     /\ used # GZero => less.status = "fail" /\ "oog" \in less.why

Next == /\ mS.status = "run"
        /\ mS' = TLCEval(Exec(mX, mS)) /\ mFrom' = mS /\ mX' = mX

TypeOK == StateOK(mX, mS)
Steps == mS = mFrom \/ StepOK(mX, mFrom, mS)
Gas == (mS.status \in {"stop", "ret", "rev"} /\ ~HasAware(mX.code)) => GasLaw(mX, mS)
================================================================================
