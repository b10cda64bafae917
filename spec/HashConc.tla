------------------------------ MODULE HashConc ------------------------------
(***************************************************************************)
(* Design-level model of the hash cache of the Go interpreter              *)
(* (go/interpreter/lfvm/hash_cache.go) under concurrency.                  *)
(*                                                                         *)
(* A request looks its key up in a critical section.  On a hit the entry   *)
(* becomes the most recent one and its hash is copied - inside the section *)
(* if CopyInside, after it otherwise.  On a miss the hash is computed      *)
(* outside and a second critical section inserts it, evicting the least    *)
(* recently used entry, unless another thread was faster.  The hash of key *)
(* k is modelled by k itself; cells are reused by evictions.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Keys, Cap, Threads, CopyInside
VARIABLES cells,  \* cell -> key it holds (0: the entry the cache is created with)
          lru,    \* cells, most recently used first
          th, wrong
vars == <<cells, lru, th, wrong>>

Idle == [pc |-> "idle", k |-> 0, e |-> 0]
Init == cells = [i \in 1..Cap |-> IF i = 1 THEN 0 ELSE -1] /\ lru = <<1>> /\ th = [t \in Threads |-> Idle] /\ wrong = FALSE

Held == {lru[i] : i \in 1..Len(lru)}
Cell(k) == {c \in Held : cells[c] = k}
Front(c) == <<c>> \o SelectSeq(lru, LAMBDA x : x # c)

Call(t) == /\ th[t].pc = "idle" /\ \E k \in Keys \cup {0} : th' = [th EXCEPT ![t] = [pc |-> "look", k |-> k, e |-> 0]]
           /\ UNCHANGED <<cells, lru, wrong>>
\* First critical section.
Look(t) == /\ th[t].pc = "look"
           /\ IF Cell(th[t].k) = {} THEN th' = [th EXCEPT ![t].pc = "insert"] /\ UNCHANGED <<lru, wrong>>
              ELSE LET c == CHOOSE c \in Cell(th[t].k) : TRUE IN
                   /\ lru' = Front(c)
                   /\ IF CopyInside THEN th' = [th EXCEPT ![t] = Idle] /\ wrong' = (wrong \/ cells[c] # th[t].k)
                      ELSE th' = [th EXCEPT ![t].pc = "copy", ![t].e = c] /\ wrong' = wrong
           /\ UNCHANGED cells
Copy(t) == /\ th[t].pc = "copy"
           /\ wrong' = (wrong \/ cells[th[t].e] # th[t].k)
           /\ th' = [th EXCEPT ![t] = Idle] /\ UNCHANGED <<cells, lru>>
\* Second critical section.
Insert(t) == /\ th[t].pc = "insert"
             /\ IF Cell(th[t].k) # {} THEN UNCHANGED <<cells, lru>>
                ELSE LET c == IF Len(lru) < Cap THEN Len(lru) + 1 ELSE lru[Cap] IN
                     cells' = [cells EXCEPT ![c] = th[t].k] /\ lru' = Front(c)
             /\ th' = [th EXCEPT ![t] = Idle] /\ wrong' = wrong
Next == \E t \in Threads : Call(t) \/ Look(t) \/ Copy(t) \/ Insert(t)

OwnHash == ~wrong
WellFormed == /\ Len(lru) <= Cap /\ Len(lru) >= 1
              /\ \A i, j \in 1..Len(lru) : i # j => lru[i] # lru[j] /\ cells[lru[i]] # cells[lru[j]]
=============================================================================
