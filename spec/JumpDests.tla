------------------------------ MODULE JumpDests ------------------------------
(***************************************************************************)
(* Jump-target analysis as a transition system reading one byte per step.  *)
(*                                                                         *)
(* Trace mode: each line of the file is [code, flags, same] as observed on *)
(* the real analysis.  Model mode (spec Model): all codes up to MaxLen     *)
(* over a small alphabet, with the invariants that relate the scan to the  *)
(* declarative definition.                                                 *)
(***************************************************************************)
EXTENDS Instr, Json, IOUtils, SequencesExt
CONSTANTS Alphabet, MaxLen

\* --- model ---------------------------------------------------------------
VARIABLES code, skip, dests
MInit == code = << >> /\ skip = 0 /\ dests = << >>
MNext == /\ Len(code) < MaxLen
         /\ \E b \in Alphabet :
              /\ code' = Append(code, b) /\ skip' = ScanByte(skip, b)
              /\ dests' = Append(dests, IF IsDest(skip, b) THEN 1 ELSE 0)
\* p starts an instruction: it is reached from 0 by whole instructions.
RECURSIVE Starts(_, _)
Starts(p, n) == IF p >= n THEN {} ELSE {p} \cup Starts(p + Width(code[p + 1]), n)
Declarative == \A p \in 0..(Len(code) - 1) :
   (dests[p + 1] = 1) <=> (code[p + 1] = 91 /\ p \in Starts(0, Len(code)))
SkipBound == skip \in 0..32
\* An operand hides at most 32 bytes: after 32 non-push bytes the scan is in step.
Emit == PrintT(ToString(<<"C", code, dests>>))

\* --- traces --------------------------------------------------------------
Obs == ndJsonDeserialize(IOEnv.TRACES)
Flags(c) == FoldLeft(LAMBDA a, b : <<ScanByte(a[1], b), Append(a[2], IF IsDest(a[1], b) THEN 1 ELSE 0)>>, <<0, << >> >>, c)[2]
TInit == code \in 1..Len(Obs) /\ skip = 0 /\ dests = << >>
TNext == /\ skip = 0 /\ skip' = 1 /\ code' = code
         /\ dests' = << >>
         /\ LET o == Obs[code] f == Flags(o.code) IN
            IF o.flags = f /\ o.same THEN TRUE ELSE PrintT(ToString(<<"BAD", code, f>>))
=============================================================================
