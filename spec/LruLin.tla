------------------------------- MODULE LruLin -------------------------------
(***************************************************************************)
(* Linearizability of recorded concurrent histories.  Each line of the     *)
(* file is a history [id, cap, ops]; an operation is                       *)
(* [op, k, v, r, inv, res]: invocation and response times, observed        *)
(* result r (-1: nothing).  A lookup-or-insert takes effect as an atomic   *)
(* lookup which, on a miss, is followed by an atomic insertion.            *)
(*                                                                         *)
(* TLC searches for a linearization: `todo` are the operations that have   *)
(* not taken effect, `half` the lookup-or-inserts whose lookup missed.     *)
(* LIN is printed for a history when all operations have taken effect with *)
(* the results observed.                                                   *)
(***************************************************************************)
EXTENDS LruCache, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES h, todo, half, es
vars == <<h, todo, half, es>>
Ops == Hist[h].ops
First(x) == IF "init" \in DOMAIN x THEN x.init ELSE << >>
Init == h \in 1..Len(Hist) /\ todo = 1..Len(Ops) /\ half = {} /\ es = First(Hist[h])
\* Number of times the value was computed, where recorded.
Made(o, n) == "mk" \in DOMAIN o => o.mk = n

Observed(o) == IF o.op = "clr" THEN Ok ELSE IF o.r = -1 THEN None ELSE Val(o.r)
\* o may take effect now: everything that returned before its invocation has.
Enabled(i) == \A j \in todo : Ops[j].res >= Ops[i].inv
Done(i, e) == /\ todo' = todo \ {i} /\ es' = e
              /\ (todo' = {} => PrintT(<<"LIN", h>>))
Atomic(i) == LET o == Ops[i] IN
  /\ o.op # "goi" /\ Observed(o) = Result(es, o)
  /\ Done(i, After(es, o, Hist[h].cap)) /\ half' = half
GoiHit(i) == LET o == Ops[i] IN
  /\ o.op = "goi" /\ i \notin half /\ Made(o, 0) /\ Has(es, o.k) /\ Observed(o) = GetResult(es, o.k)
  /\ Done(i, GetState(es, o.k)) /\ half' = half
GoiMiss(i) == LET o == Ops[i] IN
  /\ o.op = "goi" /\ i \notin half /\ Made(o, 1) /\ ~Has(es, o.k) /\ Observed(o) = Val(o.v)
  /\ half' = half \cup {i} /\ UNCHANGED <<todo, es>>
GoiInsert(i) == LET o == Ops[i] IN
  /\ i \in half /\ half' = half \ {i}
  /\ Done(i, InsertState(es, o.k, o.v, Hist[h].cap))
Next == /\ h' = h
        /\ \E i \in todo : Enabled(i) /\ (Atomic(i) \/ GoiHit(i) \/ GoiMiss(i) \/ GoiInsert(i))
Bounded == Len(es) <= Hist[h].cap /\ Unique(es)
=============================================================================
