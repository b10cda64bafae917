------------------------------- MODULE Registry -------------------------------
(***************************************************************************)
(* The registries of interpreters and processors (go/tosca): a partial map *)
(* from names, which ignore letter case, to factories.  Factories are      *)
(* positive numbers; 0 is "no factory".                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Names are sequences of code points.
LowerChar(c) == IF c \in 65..90 \/ (c \in 192..222 /\ c # 215) THEN c + 32 ELSE c
Lower(n) == [i \in 1..Len(n) |-> LowerChar(n[i])]
\* A registry is a set of pairs <<name, factory>>.
Find(reg, n) == {p \in reg : p[1] = Lower(n)}
Lookup(reg, n) == IF Find(reg, n) = {} THEN 0 ELSE (CHOOSE p \in Find(reg, n) : TRUE)[2]
\* Registration succeeds if there is a factory and the name is not taken.
Accepts(reg, n, f) == f # 0 /\ Find(reg, n) = {}
Register(reg, n, f) == IF Accepts(reg, n, f) THEN reg \cup {<<Lower(n), f>>} ELSE reg

CONSTANTS Names, Factories
VARIABLE reg
Init == reg = {}
Next == \E n \in Names, f \in Factories \cup {0} : reg' = Register(reg, n, f)
Spec == Init /\ [][Next]_reg
Functional == \A p, q \in reg : p[1] = q[1] => p = q
Normal == \A p \in reg : p[1] = Lower(p[1]) /\ p[2] > 0
\* What is registered stays.
Stable == [][reg \subseteq reg']_reg
CaseBlind == \A n, m \in Names : Lower(n) = Lower(m) => Lookup(reg, n) = Lookup(reg, m)
===============================================================================
