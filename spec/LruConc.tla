------------------------------- MODULE LruConc -------------------------------
(***************************************************************************)
(* Design-level model of the cache under concurrency.  Every thread runs   *)
(* operations of the cache; inside the lock an operation reads the index,  *)
(* unlinks, relinks and writes in separate steps, outside of it threads    *)
(* interleave freely.  `es` is the abstract cache of module LruCache; it   *)
(* changes atomically when the lock is released (the linearization point). *)
(* Invariants: the linked list represents `es` whenever the lock is free,  *)
(* results agree with the abstract operation, and the lock protects the    *)
(* intermediate states.  The lookup-or-insert is two critical sections.    *)
(***************************************************************************)
EXTENDS LruCache
CONSTANTS Keys, Vals, Cap, Threads, Locking
VARIABLES cells, head, tail, index, lock, th, es, wrong
vars == <<cells, head, tail, index, lock, th, es, wrong>>

M == INSTANCE LruModel WITH EmitEdges <- FALSE, order <- << >>, last <- << >>
Idle == [pc |-> "idle", op |-> "", k |-> 0, v |-> 0, e |-> 0, goi |-> FALSE]

Init == /\ cells = M!InitCells /\ head = 1 /\ tail = Cap /\ index = << >>
        /\ lock = 0 /\ th = [t \in Threads |-> Idle] /\ es = << >> /\ wrong = FALSE

Same == UNCHANGED <<cells, head, tail, index>>
Set(t, r) == th' = [th EXCEPT ![t] = r]
Call(t) == /\ th[t].pc = "idle"
           /\ \E o \in {"get", "ins", "goi", "clr"}, k \in Keys, v \in Vals :
                Set(t, [Idle EXCEPT !.pc = "acq", !.op = IF o = "goi" THEN "get" ELSE o, !.k = k, !.v = v, !.goi = (o = "goi")])
           /\ UNCHANGED <<lock, es, wrong>> /\ Same
Acquire(t) == /\ th[t].pc = "acq" /\ (Locking => lock = 0) /\ lock' = t
              /\ Set(t, [th[t] EXCEPT !.pc = "find"]) /\ UNCHANGED <<es, wrong>> /\ Same
Find(t) == /\ th[t].pc = "find"
           /\ Set(t, [th[t] EXCEPT !.pc = CASE th[t].op = "clr" -> "clear"
                                            [] th[t].k \in DOMAIN index -> (IF th[t].op = "get" THEN "touch" ELSE "assign")
                                            [] OTHER -> (IF th[t].op = "get" THEN "miss" ELSE "evict"),
                                   !.e = IF th[t].k \in DOMAIN index THEN index[th[t].k] ELSE 0])
           /\ UNCHANGED <<lock, es, wrong>> /\ Same
SetImpl(s) == cells' = s.cells /\ head' = s.head /\ tail' = s.tail /\ index' = s.index
Work(t) ==
  LET s == [cells |-> cells, head |-> head, tail |-> tail, index |-> index] IN
  /\ th[t].pc \in {"touch", "assign", "evict", "fill", "miss", "clear"}
  /\ CASE th[t].pc = "touch" -> SetImpl(M!TouchI(s, th[t].e)) /\ Set(t, [th[t] EXCEPT !.pc = "rel"])
       [] th[t].pc = "assign" -> SetImpl([s EXCEPT !.cells[th[t].e].val = th[t].v]) /\ Set(t, [th[t] EXCEPT !.pc = "rel"])
       [] th[t].pc = "evict" -> LET n == M!NewHeadI(s) IN SetImpl(n) /\ Set(t, [th[t] EXCEPT !.pc = "fill", !.e = n.head])
       [] th[t].pc = "fill" -> SetImpl([s EXCEPT !.cells[th[t].e].key = th[t].k, !.cells[th[t].e].val = th[t].v,
                                                 !.index = (th[t].k :> th[t].e) @@ index]) /\ Set(t, [th[t] EXCEPT !.pc = "rel"])
       [] th[t].pc = "clear" -> SetImpl([cells |-> M!InitCells, head |-> 1, tail |-> Cap, index |-> << >>]) /\ Set(t, [th[t] EXCEPT !.pc = "rel"])
       [] OTHER -> Same /\ Set(t, [th[t] EXCEPT !.pc = "rel"])
  /\ UNCHANGED <<lock, es, wrong>>
\* The result the implementation returns: the cell's value, or nothing.
ImplResult(t) == CASE th[t].op = "clr" -> Ok
                   [] th[t].e = 0 -> None
                   [] OTHER -> Val(cells[th[t].e].val)
Release(t) ==
  LET o == [op |-> th[t].op, k |-> th[t].k, v |-> th[t].v]
      miss == th[t].goi /\ th[t].op = "get" /\ ~Has(es, th[t].k) IN
  /\ th[t].pc = "rel" /\ lock' = 0
  /\ es' = After(es, o, Cap)
  /\ wrong' = (wrong \/ ImplResult(t) # Result(es, o))
  /\ IF miss THEN Set(t, [th[t] EXCEPT !.pc = "acq", !.op = "ins", !.e = 0]) ELSE Set(t, Idle)
  /\ Same
Next == \E t \in Threads : Call(t) \/ Acquire(t) \/ Find(t) \/ Work(t) \/ Release(t)

Refines == lock = 0 => M!Refines
Exclusive == \A t \in Threads : th[t].pc \in {"find", "touch", "assign", "evict", "fill", "miss", "clear", "rel"} => lock = t
ResultsRight == ~wrong
Bounded == Len(es) <= Cap /\ Unique(es)
=============================================================================
