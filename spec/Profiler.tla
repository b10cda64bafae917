------------------------------- MODULE Profiler -------------------------------
(***************************************************************************)
(* Profiles of executions: how often every instruction was executed, and   *)
(* the time spent in it.                                                   *)
(*                                                                         *)
(* An execution is observed through the events                             *)
(*   enter d      an execution starts at call depth d                      *)
(*   pre o        it starts an instruction with byte value o               *)
(*   post o       and completes it                                         *)
(*   leave        it ends                                                  *)
(* Instructions creating or calling contracts may contain one execution,   *)
(* one level deeper.  The time of an instruction is the time between its   *)
(* start and completion without the time of the execution it contains;     *)
(* the time of an execution is only recorded at depth 0.                   *)
(*                                                                         *)
(* State: clock, frames (innermost last; [d, since, op, start, inner]),    *)
(* prof (the profile), saved (a copy taken earlier), reset (the time of    *)
(* the last reset).                                                        *)
(***************************************************************************)
EXTENDS Instr, SequencesExt, FiniteSetsExt

None == 256      \* no instruction under way
Zero == [n |-> << >>, t |-> << >>, runs |-> 0, rt |-> 0]
Fresh == [clock |-> 0, frames |-> << >>, prof |-> Zero, saved |-> Zero, reset |-> 0]

Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Plus(f, k, d) == (k :> (Get(f, k) + d)) @@ f
Sum(f, g) == TLCEval([k \in DOMAIN f \cup DOMAIN g |-> Get(f, k) + Get(g, k)])
Merged(p, q) == [n |-> Sum(p.n, q.n), t |-> Sum(p.t, q.t), runs |-> p.runs + q.runs, rt |-> p.rt + q.rt]

\* Byte values a profile of the given mode reports.
Calls == {Op(x) : x \in CallLike}
Externals == {Op(x) : x \in External}
Reported(mode) == IF mode = "full" THEN {Table[i][1] : i \in 1..Len(Table)} ELSE Calls \cup Externals
MaxDepth == 1024

Idle(s) == s.frames = << >>
Top(s) == s.frames[Len(s.frames)]
SetTop(s, f) == [s EXCEPT !.frames[Len(s.frames)] = f]

\* Is the event possible?
Enabled0(s, x) ==
  CASE x.e = "enter" -> IF Idle(s) THEN x.d \in 0..MaxDepth
                        ELSE Top(s).op \in Calls /\ ~Top(s).entered /\ x.d = Top(s).d + 1 /\ x.d <= MaxDepth
    [] x.e = "pre" -> ~Idle(s) /\ Top(s).op = None
    [] x.e = "post" -> ~Idle(s) /\ Top(s).op = x.o
    [] x.e = "leave" -> ~Idle(s) /\ Top(s).op = None
    [] x.e \in {"reset", "save", "merge", "load"} -> Idle(s)
    [] OTHER -> FALSE

\* The state after the event, which happens x.dt after the previous one.
After(mode, s0, x) ==
  LET s == [s0 EXCEPT !.clock = @ + x.dt] IN
  CASE x.e = "enter" -> [s EXCEPT !.frames = @ \o <<[d |-> x.d, since |-> s.clock, op |-> None, start |-> 0, inner |-> 0, entered |-> FALSE]>>]
    [] x.e = "pre" -> SetTop(s, [Top(s) EXCEPT !.op = x.o, !.start = s.clock, !.inner = 0, !.entered = FALSE])
    [] x.e = "post" ->
         LET f == Top(s)
             s1 == SetTop(s, [f EXCEPT !.op = None])
         IN IF x.o \in Reported(mode)
            THEN [s1 EXCEPT !.prof.n = Plus(@, x.o, 1), !.prof.t = Plus(@, x.o, s.clock - f.start - f.inner)]
            ELSE s1
    [] x.e = "leave" ->
         LET f == Top(s)
             s1 == [s EXCEPT !.frames = SubSeq(@, 1, Len(@) - 1)]
             time == s.clock - f.since
             s2 == IF f.d = 0 THEN [s1 EXCEPT !.prof.runs = @ + 1, !.prof.rt = @ + time] ELSE s1
         IN IF Idle(s1) THEN s2 ELSE SetTop(s2, [Top(s2) EXCEPT !.inner = @ + time, !.entered = TRUE])
    [] x.e = "reset" -> [s EXCEPT !.prof = Zero, !.reset = s.clock]
    [] x.e = "save" -> [s EXCEPT !.saved = s.prof]
    [] x.e = "merge" -> [s EXCEPT !.prof = Merged(@, s.saved)]
    [] x.e = "load" -> [s EXCEPT !.prof = s.saved]

Total(f) == MapThenSumSet(LAMBDA k : f[k], DOMAIN f)

\* What every profile satisfies that contains no other one.
ProfileOK(mode, s) ==
  /\ DOMAIN s.prof.n = DOMAIN s.prof.t /\ DOMAIN s.prof.n \subseteq Reported(mode)
  /\ \A k \in DOMAIN s.prof.n : s.prof.n[k] >= 1 /\ s.prof.t[k] >= 0
  /\ s.prof.rt >= 0
  \* no time is counted twice
  /\ Total(s.prof.t) <= s.clock - s.reset /\ s.prof.rt <= s.clock - s.reset
================================================================================
