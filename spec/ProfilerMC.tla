------------------------------ MODULE ProfilerMC ------------------------------
(* Explores profiles exhaustively; the histories are replayed into the real *)
(* profiler by drivers/profiler.cc and checked by ProfilerTrace.            *)
EXTENDS Profiler
CONSTANTS Mode, Ops, Size, MaxNest

VARIABLES vS, vHist, vMerged
vars == <<vS, vHist, vMerged>>

\* Intervals that no two sums of events share.
Dt == 2 ^ Len(vHist)
Event(e, o, d) == [e |-> e, o |-> o, d |-> d, dt |-> Dt]
Events == {Event("pre", o, 0) : o \in Ops} \cup {Event("post", o, 0) : o \in Ops}
          \cup {Event("enter", 0, d) : d \in 0..MaxNest}
          \cup {Event(e, 0, 0) : e \in {"leave", "reset", "save", "merge", "load"}}

Init == vS = Fresh /\ vHist = << >> /\ vMerged = FALSE
Do(x) ==
  LET t == TLCEval(After(Mode, vS, x)) IN
  /\ Len(vHist) < Size /\ Enabled0(vS, x)
  /\ vS' = t /\ vHist' = vHist \o <<x>>
  /\ vMerged' = (vMerged \/ x.e \in {"merge", "load"})
  /\ IF Len(vHist) + 1 = Size THEN PrintT(ToString(<<"H", [i \in 1..Len(vHist') |-> <<vHist'[i].e, vHist'[i].o, vHist'[i].d, vHist'[i].dt>>]>>)) ELSE TRUE
Next == \E x \in Events : Do(x)

Sound == vMerged \/ ProfileOK(Mode, vS)
\* Without executions nested in others, the time of instructions is part of the time of executions.
Parts == (~vMerged /\ Idle(vS) /\ \A i \in 1..Len(vHist) : vHist[i].e = "enter" => vHist[i].d = 0)
         => Total(vS.prof.t) <= vS.prof.rt
================================================================================
