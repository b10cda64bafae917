------------------------------ MODULE LruCache ------------------------------
(***************************************************************************)
(* The bounded least-recently-used map (cpp/common/lru_cache.h), as seen   *)
(* by its callers.  The state is the sequence of <<key, value>> entries,   *)
(* most recently used first.                                               *)
(*                                                                         *)
(* Every operation is a function from the entries to a result and new      *)
(* entries.  A lookup that hits and the insertion of a new key make the    *)
(* entry the most recent one; assigning a new value to a present key       *)
(* changes the value only.  Results: <<"none">>, <<"val", v>>, <<"ok">>.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Has(es, k) == \E i \in 1..Len(es) : es[i][1] = k
Pos(es, k) == CHOOSE i \in 1..Len(es) : es[i][1] = k
Without(es, i) == SubSeq(es, 1, i - 1) \o SubSeq(es, i + 1, Len(es))
Touch(es, i) == <<es[i]>> \o Without(es, i)

None == <<"none">>
Val(v) == <<"val", v>>
Ok == <<"ok">>

GetResult(es, k) == IF Has(es, k) THEN Val(es[Pos(es, k)][2]) ELSE None
GetState(es, k)  == IF Has(es, k) THEN Touch(es, Pos(es, k)) ELSE es

InsertResult(es, k, v) == Val(v)
InsertState(es, k, v, cap) ==
  IF Has(es, k) THEN [es EXCEPT ![Pos(es, k)] = <<k, v>>]
  ELSE SubSeq(<< <<k, v>> >> \o es, 1, IF Len(es) < cap THEN Len(es) + 1 ELSE cap)

\* Sequential lookup-or-insert: a lookup followed by an insertion on a miss.
GoiResult(es, k, v) == IF Has(es, k) THEN GetResult(es, k) ELSE Val(v)
GoiState(es, k, v, cap) == IF Has(es, k) THEN GetState(es, k) ELSE InsertState(es, k, v, cap)

(* Operations as records [op, k, v]. *)
Result(es, o) == CASE o.op = "get" -> GetResult(es, o.k)
                   [] o.op = "ins" -> InsertResult(es, o.k, o.v)
                   [] o.op = "goi" -> GoiResult(es, o.k, o.v)
                   [] OTHER -> Ok
After(es, o, cap) == CASE o.op = "get" -> GetState(es, o.k)
                       [] o.op = "ins" -> InsertState(es, o.k, o.v, cap)
                       [] o.op = "goi" -> GoiState(es, o.k, o.v, cap)
                       [] OTHER -> << >>

Unique(es) == \A i, j \in 1..Len(es) : es[i][1] = es[j][1] => i = j
=============================================================================
