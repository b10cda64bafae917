----------------------------- MODULE RegistryLin -----------------------------
(***************************************************************************)
(* Linearizability of recorded histories of a registry, sequential or      *)
(* concurrent.  An operation is [op, name, id, r, inv, res]: registration  *)
(* of factory id (r is <<1>> if it succeeded), lookup (r is <<id>>),       *)
(* listing (r is the sequence of registered <<name, id>>).  LIN is printed *)
(* for every history that has a linearization.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.HISTORIES)
VARIABLES h, todo, reg
R == INSTANCE Registry WITH Names <- {}, Factories <- {}
Ops == Hist[h].ops
Init == h \in 1..Len(Hist) /\ todo = 1..Len(Ops) /\ reg = {}
Enabled(i) == \A j \in todo : Ops[j].res >= Ops[i].inv
SetOf(s) == {s[i] : i \in 1..Len(s)}
Fits(o) == CASE o.op = "reg" -> o.r = <<IF R!Accepts(reg, o.name, o.id) THEN 1 ELSE 0>>
             [] o.op = "get" -> o.r = <<R!Lookup(reg, o.name)>>
             [] o.op = "list" -> Len(o.r) = Cardinality(reg) /\ SetOf(o.r) = reg
             [] o.op = "bad" -> o.r = <<0>>
Next == \E i \in todo :
  /\ Enabled(i) /\ Fits(Ops[i])
  /\ reg' = IF Ops[i].op = "reg" THEN R!Register(reg, Ops[i].name, Ops[i].id) ELSE reg
  /\ todo' = todo \ {i} /\ h' = h
  /\ (todo' = {} => PrintT(ToString(<<"LIN", h>>)))
==============================================================================
