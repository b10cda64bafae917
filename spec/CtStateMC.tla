------------------------------ MODULE CtStateMC ------------------------------
(***************************************************************************)
(* All short histories of operations on copies of one state.  The          *)
(* histories are printed and replayed on real states.                      *)
(***************************************************************************)
EXTENDS CtState
CONSTANTS Depth, Emit
VARIABLES heap, hist
vars == <<heap, hist>>

O(h, op, a) == [h |-> h, op |-> op, a |-> a]
\* operations on single states; their arguments are valid in any state reached here
Ops == {<<"push", <<"7">>>>, <<"poke", <<0, "1">>>>, <<"mwrite", <<1, <<9>>>>>>, <<"mgrow", <<0, 33>>>>, <<"setcur", <<"1", "2">>>>, <<"setcur", <<"1", "0">>>>, <<"delcur", <<"2">>>>,
        <<"setorig", <<"1", "2">>>>, <<"setorig", <<"7", "0">>>>, <<"warm", <<"1">>>>, <<"cold", <<"2">>>>, <<"settrans", <<"1", "2">>>>, <<"settrans", <<"2", "0">>>>, <<"balance", <<"1", "0">>>>, <<"balance", <<"2", "7">>>>,
        <<"awarm", <<"1">>>>, <<"log", <<<<"1">>, <<5>>>>>>, <<"logbyte", <<1, 1, 8>>>>, <<"logtopic", <<1, 1, "7">>>>, <<"expect", <<<<TRUE, <<1>>, 3, 1, "2">>>>>>,
        <<"call", <<<<"call", "1", "2", <<4>>, "7", 10, "1">>>>>>, <<"futuregas", <<1, 4>>>>, <<"blob", <<1, "7">>>>, <<"sdentry", <<"1", "2">>>>, <<"sdset", <<1, "2", "1">>>>,
        <<"vset", <<"0", "2", "1">>>>, <<"vdestruct", <<"1", "2">>>>, <<"vaccess", <<"2">>>>, <<"vslot", <<"0", "2">>>>, <<"vlog", << << >>, <<5>>>>>>, <<"set", <<"status", "stopped">>>>,
        <<"set", <<"status", "failed">>>>, <<"set", <<"pc", 2>>>>, <<"set", <<"pc", 9>>>>, <<"set", <<"gas", "5">>>>, <<"set", <<"ret", <<1>>>>>>, <<"set", <<"lastret", <<1>>>>>>, <<"set", <<"number", "1">>>>, <<"set", <<"origin", "1">>>>}
\* the state the histories begin with
Prefix == <<O(1, "new", << >>), O(1, "code", <<<<96, 1>>>>), O(1, "push", <<"2">>), O(1, "mset", <<[i \in 1..32 |-> 0]>>), O(1, "storage", <<<<<<"1", "1">>, <<"2", "2">>>>, <<<<"2", "1">>>>, <<"2">>>>),
            O(1, "settrans", <<"2", "2">>), O(1, "accounts", << <<<<"1", "7", <<1>>>>>>, <<"2">>>>), O(1, "log", <<<<"1">>, <<5>>>>), O(1, "expect", <<<<FALSE, << >>, 2, 0, "0">>>>),
            O(1, "blobs", <<<<"1">>>>), O(1, "sdentry", <<"1", "1">>)>>
Run(h, os) == FoldLeft(LAMBDA g, o : Apply(g, o)[1], h, os)
\* an operation is possible
Valid(s, e) == /\ (e[1] = "futuregas" => s.future # << >>)

Init == heap = Run(<< >>, Prefix) /\ hist = << >>
Do(o) == heap' = Apply(heap, o)[1] /\ hist' = Append(hist, o)
Next ==
  /\ Len(hist) < Depth
  /\ \/ \E h \in DOMAIN heap : \E e \in Ops : Valid(heap[h], e) /\ Do(O(h, e[1], e[2]))
     \/ \E h \in DOMAIN heap : \E how \in Copies : \E g \in 1..2 : g # h /\ Do(O(h, how, <<g>>))

\* copies equal their origin, without any difference
CopiesEqual == (hist # << >> /\ Last(hist).op \in Copies) => heap[1] = heap[2] /\ Eq(heap[1], heap[2]) /\ NoDiff(heap[1], heap[2])
\* equality is an equivalence, and states that differ have a difference that is listed
Pairs == (DOMAIN heap) \X (DOMAIN heap)
Equivalence == \A x \in Pairs : LET s == heap[x[1]]  t == heap[x[2]] IN (Eq(s, s)) /\ (Eq(s, t) <=> Eq(t, s)) /\ (~Eq(s, t) => ~NoDiff(s, t) /\ ~NoDiff(t, s))
\* what execution does in equal running states is the same
Congruence == \A x \in Pairs : LET s == heap[x[1]]  t == heap[x[2]] IN
  (Eq(s, t) /\ s.status = "running") => \A e \in Ops : (Valid(s, e) /\ e[1] # "set") =>
     LET a == OnState(s, O(1, e[1], e[2]))  b == OnState(t, O(2, e[1], e[2])) IN a[2] = b[2] /\ Eq(a[1], b[1])
\* an operation changes no state but its target
Frame == [][LET o == Last(hist') IN \A h \in DOMAIN heap : h # (IF o.op \in Copies THEN o.a[1] ELSE o.h) => heap'[h] = heap[h]]_vars
\* the histories with both states, to be replayed
Emitted == (Emit /\ Len(hist) = Depth /\ Cardinality(DOMAIN heap) = 2) => PrintT(ToString(<<"H", hist>>))
=============================================================================
