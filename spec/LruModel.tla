------------------------------ MODULE LruModel ------------------------------
(***************************************************************************)
(* Design-level model of the cache, explored exhaustively.                 *)
(*                                                                         *)
(* Next to the abstract entries (module LruCache) it keeps                 *)
(*  - stamp: the time of the last lookup or insertion of every key, from   *)
(*    which the informal definition of "least recently used" is checked;   *)
(*  - the linked list of cells, the index, head and tail of the            *)
(*    implementation, stepped by the algorithm of lru_cache.h; invariant   *)
(*    Refines says it represents the entries.                              *)
(*                                                                         *)
(* With EmitEdges every transition is printed; they are replayed into the  *)
(* real cache by drivers/lru_seq.cc.                                       *)
(***************************************************************************)
EXTENDS LruCache

CONSTANTS Keys, Vals, Cap, EmitEdges

VARIABLES es, order, cells, head, tail, index, last
vars == <<es, order, cells, head, tail, index, last>>

Ops == [op : {"get"}, k : Keys, v : {0}] \cup [op : {"ins", "goi"}, k : Keys, v : Vals]
       \cup {[op |-> "clr", k |-> 0, v |-> 0]}

Null == 0
\* `order`: all keys ever looked up successfully or inserted, latest first: the
\* relative order of their time stamps.
InitCells == [i \in 1..Cap |-> [key |-> 0, val |-> 0, pred |-> i - 1, succ |-> IF i < Cap THEN i + 1 ELSE Null]]

Init == /\ es = << >> /\ order = << >>
        /\ cells = InitCells /\ head = 1 /\ tail = Cap
        /\ index = << >>            \* function from keys to cells
        /\ last = <<"none">>

\* --- the algorithm of the implementation --------------------------------
Impl == [cells |-> cells, head |-> head, tail |-> tail, index |-> index]

TouchI(s, e) ==
  IF e = s.head THEN s
  ELSE LET c1 == [s.cells EXCEPT ![s.cells[e].pred].succ = s.cells[e].succ]
           c2 == IF s.cells[e].succ # Null THEN [c1 EXCEPT ![s.cells[e].succ].pred = s.cells[e].pred] ELSE c1
           t2 == IF s.cells[e].succ # Null THEN s.tail ELSE s.cells[e].pred
           c3 == [c2 EXCEPT ![e].pred = Null, ![e].succ = s.head]
           c4 == [c3 EXCEPT ![s.head].pred = e]
       IN [s EXCEPT !.cells = c4, !.head = e, !.tail = t2]

NewHeadI(s) ==
  LET nt == s.cells[s.tail].pred
      c1 == [s.cells EXCEPT ![nt].succ = Null]
      ix == IF Cardinality(DOMAIN s.index) >= Cap
            THEN [k \in (DOMAIN s.index) \ {s.cells[s.tail].key} |-> s.index[k]] ELSE s.index
      c2 == [c1 EXCEPT ![s.tail].pred = Null, ![s.tail].succ = s.head]
      c3 == [c2 EXCEPT ![s.head].pred = s.tail]
  IN [cells |-> c3, head |-> s.tail, tail |-> nt, index |-> ix]

GetI(s, k) == IF k \in DOMAIN s.index THEN TouchI(s, s.index[k]) ELSE s
InsI(s, k, v) ==
  IF k \in DOMAIN s.index THEN [s EXCEPT !.cells[s.index[k]].val = v]
  ELSE LET n == NewHeadI(s)
       IN [n EXCEPT !.cells[n.head].key = k, !.cells[n.head].val = v,
                    !.index = (k :> n.head) @@ n.index]
StepI(s, o) == CASE o.op = "get" -> GetI(s, o.k)
                 [] o.op = "ins" -> InsI(s, o.k, o.v)
                 [] o.op = "goi" -> IF o.k \in DOMAIN s.index THEN GetI(s, o.k) ELSE InsI(s, o.k, o.v)
                 [] OTHER -> [cells |-> InitCells, head |-> 1, tail |-> Cap, index |-> << >>]

\* --- transitions ---------------------------------------------------------
Uses(o) == (o.op = "get" /\ Has(es, o.k)) \/ o.op = "goi" \/ (o.op = "ins" /\ ~Has(es, o.k))

Step(o) ==
  LET s == StepI(Impl, o) IN
  /\ es' = After(es, o, Cap)
  /\ order' = IF o.op = "clr" THEN << >>
              ELSE IF Uses(o) THEN <<o.k>> \o SelectSeq(order, LAMBDA x : x # o.k) ELSE order
  /\ cells' = s.cells /\ head' = s.head /\ tail' = s.tail /\ index' = s.index
  /\ last' = Result(es, o)
  /\ EmitEdges => PrintT(ToString(<<"E", es, o.op, o.k, o.v, Result(es, o), es'>>))

Next == \E o \in Ops : Step(o)

\* The observable state; the cell numbers of the implementation and the
\* result of the last operation do not matter.
View == es
FullView == <<es, order, cells, head, tail, index>>

\* --- properties ------------------------------------------------------------
Bounded == Len(es) <= Cap /\ Unique(es)
\* The entries present are the most recently used ones, in that order.
Recency == Len(es) <= Len(order) /\ \A i \in 1..Len(es) : es[i][1] = order[i]
FullWhenSeen == Len(es) = IF Len(order) < Cap THEN Len(order) ELSE Cap

\* Walk of the linked list.
RECURSIVE Walk(_, _)
Walk(c, n) == IF c = Null \/ n = 0 THEN << >> ELSE <<c>> \o Walk(cells[c].succ, n - 1)
Refines == LET w == Walk(head, Cap + 1) IN
  /\ Len(w) = Cap /\ w[Cap] = tail /\ cells[head].pred = Null
  /\ \A i \in 2..Cap : cells[w[i]].pred = w[i - 1]
  /\ Cardinality(DOMAIN index) = Len(es)
  /\ \A i \in 1..Len(es) : /\ cells[w[i]].key = es[i][1] /\ cells[w[i]].val = es[i][2]
                           /\ es[i][1] \in DOMAIN index /\ index[es[i][1]] = w[i]
=============================================================================
