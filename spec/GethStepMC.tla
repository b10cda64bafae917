------------------------------ MODULE GethStepMC ------------------------------
(***************************************************************************)
(* All short executions of instructions on small states, in one go and     *)
(* instruction by instruction.                                             *)
(***************************************************************************)
EXTENDS GethStep
CONSTANTS Length, Emit
VARIABLES start, script
vars == <<start, script>>

O(h, op, a) == [h |-> h, op |-> op, a |-> a]
Prefix == <<O(1, "new", << >>), O(1, "code", <<<<96, 1>>>>), O(1, "push", <<"2">>), O(1, "mset", <<<<1, 2, 3>>>>), O(1, "storage", <<<<<<"1", "1">>, <<"2", "2">>>>, <<<<"2", "1">>>>, <<"2">>>>),
            O(1, "accounts", << <<<<"1", "7", <<1>>>>, <<"0", "7", << >>>>>>, <<"2">>>>), O(1, "set", <<"refund", "5">>), O(1, "set", <<"pc", 1>>), O(1, "set", <<"lastret", <<9>>>>), O(1, "set", <<"ret", <<8>>>>),
            O(1, "set", <<"gas", "100">>), O(1, "expect", <<<<TRUE, <<4>>, 2, 7, "2">>>>), O(1, "expect", <<<<FALSE, <<5, 6>>, 200, -3, "1">>>>)>>
Variants == {<< >>, <<O(1, "set", <<"readonly", TRUE>>)>>, <<O(1, "set", <<"status", "stopped">>)>>, <<O(1, "set", <<"status", "failed">>)>>, <<O(1, "set", <<"revision", 6>>)>>, <<O(1, "set", <<"revision", 2>>)>>}
Made(v) == FoldLeft(LAMBDA h, o : Apply(h, o)[1], << >>, Prefix \o v)[1]
\* instructions
Code == {<<<<"pop">>, <<"push", "7">>, <<"pc", 2>>>>, <<<<"grow", 40>>, <<"write", 33, <<7>>>>, <<"pc", 3>>>>, <<<<"gas", "1">>, <<"last", << >>>>>>, <<<<"status", "stopped">>, <<"pc", 4>>, <<"ret", <<1>>>>>>,
         <<<<"status", "reverted">>, <<"ret", << >>>>>>, <<<<"status", "failed">>, <<"gas", "0">>>>, <<<<"store", "1", "2">>, <<"refund", 4>>>>, <<<<"call", "call", "1", <<1>>, "7", 50>>>>,
         <<<<"call", "create2", "1", <<1>>, "ff", 50>>>>, <<<<"call", "delegate_call", "1", <<1>>, "1", 50>>>>, <<<<"log", <<"1">>, <<2>>>>, <<"destruct", "2">>>>}

Init == start \in Variants /\ script = << >>
Next == Len(script) < Length /\ \E i \in Code : script' = Append(script, i) /\ start' = start

N == Len(script)
Whole == Step(Made(start), N, script)
\* instructions done one after the other have the effect and the results of doing them at once
RECURSIVE Single(_, _)
Single(a, k) == IF k > N THEN a ELSE LET r == Step(a[1], 1, <<script[k]>>) IN Single(<<r[1], a[2] \o r[2][3], a[3] + r[2][1]>>, k + 1)
Composes == LET a == Single(<<Made(start), << >>, 0>>, 1) IN Eq(a[1], Whole[1]) /\ Same(a[1], Whole[1], Parts \ (IF a[1].status = "running" THEN {} ELSE {"pc"})) /\ a[2] = Whole[2][3] /\ a[3] = Whole[2][1]
\* what is no part of executions stays as it is
Fixed == {"revision", "readonly", "code", "self", "caller", "value", "calldata", "origin", "blobs", "hashes", "orig", "accts"} \cup BlockParts
Frame == \A p \in Fixed : Whole[1][p] = Made(start)[p]
\* ended executions and those of unknown revisions do not go on
Final == LET s == Made(start) IN (s.status # "running" \/ ~Supported(s)) => Whole[1] = s /\ Whole[2][1] = 0
Positions == Whole[1].status # "running" => Whole[1].pc = Made(start).pc
\* nested calls consume what is prepared for them, in order
Journal == LET s == Made(start) IN SubSeq(s.future, Len(s.future) - Len(Whole[1].future) + 1, Len(s.future)) = Whole[1].future /\ Len(Whole[1].past) >= Len(s.future) - Len(Whole[1].future)
\* a whole execution leaves the registers of the state alone
RunFrame == LET w == {i \in 1..N : \A k \in 1..Len(script[i]) : script[i][k][1] \in {"store", "refund", "log", "destruct", "gas"}}
                ms == FoldLeft(LAMBDA a, i : IF i \in w THEN a \o script[i] ELSE a, << >>, [i \in 1..N |-> i])
                r == Run(Made(start), ms, "stop", << >>) IN \A p \in Own : r[1][p] = Made(start)[p]
Emitted == (Emit /\ N = Length) => PrintT(ToString(<<"H", start, script>>))
=============================================================================
