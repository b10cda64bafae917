------------------------------ MODULE EvmProfile ------------------------------
(***************************************************************************)
(* Profiles of whole executions by the real interpreter.                   *)
(*                                                                         *)
(* CASES names the executed cases, HISTS recorded histories of one         *)
(* instance: executions (in the order in which they start, nested ones     *)
(* included), changes of its options, resets and dumps of its profiles.    *)
(* How often a case executes every instruction is what Evm prescribes.     *)
(***************************************************************************)
EXTENDS Evm, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Hists == ndJsonDeserialize(IOEnv.HISTS)

VARIABLES vHist,   \* history
          vPos,    \* events checked so far; -1 when it is settled
          vInst    \* the instance
vars == <<vHist, vPos, vInst>>
View == <<vHist, vPos>>

Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Plus(f, k, d) == (k :> (Get(f, k) + d)) @@ f
Sum(f, g) == TLCEval([k \in DOMAIN f \cup DOMAIN g |-> Get(f, k) + Get(g, k)])

\* A jump and the destination it reaches are executed and counted as one.
Jumps(X, s) == \/ NameAt(X, s) = "JUMP"
               \/ NameAt(X, s) = "JUMPI" /\ Len(s.stack) >= 2 /\ s.stack[Len(s.stack) - 1] # Pad32(<< >>)
Counted(v) == IF Info[v].used THEN v ELSE Op("INVALID")

\* Counts of up to n instructions: <<state, counts>>
RECURSIVE CountN(_, _, _, _)
CountN(X, s, f, n) ==
  IF n = 0 \/ s.status # "run" THEN <<s, f>>
  ELSE LET t == TLCEval(Exec(X, s))
           j == Jumps(X, s) /\ t.status = "run"
           f2 == Plus(f, Counted(OpAt(X, s)), 1)
       IN CountN(X, IF j THEN TLCEval(Exec(X, t)) ELSE t, TLCEval(f2), n - 1)

\* Counts of all cases; those that do not end are left out by the check.
RECURSIVE CountAll(_, _, _, _)
CountAll(X, s, f, k) ==
  LET r == TLCEval(CountN(X, s, f, 100))
  IN IF r[1].status # "run" THEN r[2] ELSE IF k = 0 THEN (-1 :> 0) ELSE CountAll(X, r[1], r[2], k - 1)
Counts == TLCEval([c \in 1..Len(Cases) |-> CountAll(Cases[c], Start(Cases[c]), << >>, 30)])

Calls == {Op(x) : x \in CallLike}
Externals == {Op(x) : x \in External}
Reported(mode) == IF mode = "full" THEN {Table[i][1] : i \in 1..Len(Table)} ELSE Calls \cup Externals

NoRuns == [n |-> << >>, runs |-> 0]
\* Options of an instance, its profile of all and of external instructions.
Fresh == [log |-> FALSE, full |-> FALSE, ext |-> FALSE, pf |-> NoRuns, pe |-> NoRuns]
Mode(i) == IF i.full THEN "full" ELSE IF i.ext THEN "ext" ELSE "none"
Ran(p, c, d) == [n |-> Sum(p.n, Counts[c]), runs |-> p.runs + (IF d = 0 THEN 1 ELSE 0)]
Do(i, x) ==
  CASE x.t = "exec" -> IF i.log THEN i ELSE IF i.full THEN [i EXCEPT !.pf = Ran(@, x.c, x.d)] ELSE IF i.ext THEN [i EXCEPT !.pe = Ran(@, x.c, x.d)] ELSE i
    [] x.t = "opt" -> [i EXCEPT ![x.o] = x.v]
    [] x.t = "reset" -> IF i.full THEN [i EXCEPT !.pf = NoRuns] ELSE IF i.ext THEN [i EXCEPT !.pe = NoRuns] ELSE i
    [] OTHER -> i

AsFun(ps) == TLCEval([k \in {ps[j][1] : j \in 1..Len(ps)} |-> ps[CHOOSE j \in 1..Len(ps) : ps[j][1] = k][2]])
DumpBad(i, x) ==
  LET m == Mode(i)
      p == IF m = "full" THEN i.pf ELSE i.pe
      n == AsFun(x.n)
  IN IF m # "none" /\ -1 \in DOMAIN p.n THEN (IF PrintT(ToString(<<"OPEN", vHist>>)) THEN {} ELSE {})
     ELSE IF m = "none" THEN (IF Len(x.n) # 0 THEN {"output"} ELSE {})
     ELSE (IF DOMAIN n # Reported(m) \/ Len(x.n) # Cardinality(Reported(m)) THEN {"listed"} ELSE {})
          \cup {Info[k].name : k \in {j \in Reported(m) : Get(n, j) # Get(p.n, j)}}
          \cup (IF x.runs # p.runs THEN {"runs"} ELSE {})
          \cup (IF ~x.timeok THEN {"time"} ELSE {})

Init == /\ vHist \in 1..Len(Hists) /\ vPos = 0 /\ vInst = Fresh
Step ==
  LET x == Hists[vHist].items[vPos + 1] IN
  /\ vPos >= 0 /\ vPos < Len(Hists[vHist].items)
  /\ LET bad == IF x.t = "dump" THEN DumpBad(vInst, x) ELSE {} IN
     IF bad # {} THEN PrintT(ToString(<<"BAD", Hists[vHist].id, vPos + 1, bad, vInst, x>>)) /\ vPos' = -1 ELSE vPos' = vPos + 1
  /\ vInst' = Do(vInst, x)
  /\ vHist' = vHist
Next == Step
================================================================================
