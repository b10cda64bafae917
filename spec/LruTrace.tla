------------------------------ MODULE LruTrace ------------------------------
(***************************************************************************)
(* Checks recorded sequential histories of the real cache.  Each line of   *)
(* the file is [id, cap, ops], an operation is [op, k, v, r, mk] with the  *)
(* observed result r (-1: nothing) and the number mk of calls of the value *)
(* factory.                                                                *)
(***************************************************************************)
EXTENDS LruCache, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, i, es
\* Entries the cache is created with.
First(x) == IF "init" \in DOMAIN x THEN x.init ELSE << >>
Init == t \in 1..Len(Traces) /\ i = 1 /\ es = First(Traces[t])
Op == Traces[t].ops[i]
Observed(o) == IF o.op = "clr" THEN Ok ELSE IF o.r = -1 THEN None ELSE Val(o.r)
Matches(o) == /\ Observed(o) = Result(es, o)
              /\ o.op = "goi" => o.mk = IF Has(es, o.k) THEN 0 ELSE 1
Next == /\ i <= Len(Traces[t].ops)
        /\ IF Matches(Op) THEN i' = i + 1
           ELSE PrintT(ToString(<<"BAD", t, i, Op, Result(es, Op)>>)) /\ i' = Len(Traces[t].ops) + 1
        /\ es' = After(es, Op, Traces[t].cap) /\ t' = t
View == <<t, i>>
Bounded == Len(es) <= Traces[t].cap /\ Unique(es)
=============================================================================
