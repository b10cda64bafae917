--------------------------- MODULE CoverageBridge ---------------------------
(***************************************************************************)
(* The coverage bridge (cpp/common/coverage, go/lib/cpp): requests to a    *)
(* library compiled with or without coverage.                              *)
(*                                                                         *)
(* State: the number of times the covered library was executed, and what   *)
(* the data files say (-1: no files).  In a coverage build the first dump  *)
(* writes the data accumulated so far; later dumps may rewrite the files   *)
(* with newer data or leave them.  Nothing else writes files, and in other *)
(* builds there are never any.                                             *)
(*                                                                         *)
(* Model mode explores all request sequences up to MaxLen.  Trace mode:    *)
(* each line is [enabled, steps, code], a step is [op, r, files]: result   *)
(* of a query and executions recorded in the files after the request.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANTS MaxLen, MaxWork
VARIABLES enabled, work, file, n, t

Ops == {"q", "w", "d", "c"}
Query == enabled
\* Possible contents of the files after request o.
Files(o, w, f) == IF o \in {"d", "c"} /\ enabled THEN (IF f = -1 THEN {w} ELSE {f, w}) ELSE {f}
Work(o, w) == IF o = "w" THEN w + 1 ELSE w

Init == enabled \in BOOLEAN /\ work = 0 /\ file = -1 /\ n = 0 /\ t = 0
Next == /\ n < MaxLen /\ n' = n + 1 /\ UNCHANGED <<enabled, t>>
        /\ \E o \in Ops : work' = Work(o, work) /\ file' \in Files(o, work, file)
NeverMoreThanDone == file <= work
OnlyWhenEnabled == ~enabled => file = -1
Bound == work <= MaxWork

Obs == ndJsonDeserialize(IOEnv.TRACES)
TInit == t \in 1..Len(Obs) /\ enabled = Obs[t].enabled /\ work = 0 /\ file = -1 /\ n = 0
Bad(what) == PrintT(ToString(<<"BAD", t, n + 1, what>>))
TNext ==
  /\ n < Len(Obs[t].steps) /\ UNCHANGED <<enabled, t>>
  /\ LET s == Obs[t].steps[n + 1]
         q == IF s.op = "q" /\ s.r # Query THEN Bad("query") ELSE TRUE
         f == IF s.files \notin Files(s.op, work, file) THEN Bad("files") ELSE TRUE
     IN /\ q /\ f /\ n' = n + 1 /\ work' = Work(s.op, work) /\ file' = s.files
\* The process survives every request and ends normally.
TEnd == IF t # 0 /\ n = Len(Obs[t].steps) /\ Obs[t].code # 0 THEN Bad("process ended") ELSE TRUE
=============================================================================
