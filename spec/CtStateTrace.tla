----------------------------- MODULE CtStateTrace -----------------------------
(***************************************************************************)
(* Checks recorded operations on real states (drivers/go/ctstate) with     *)
(* CtState: each result, and exactly the changes that are prescribed.      *)
(***************************************************************************)
EXTENDS CtState, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.RUNS)
VARIABLES c, k, heap
vars == <<c, k, heap>>
Init == c \in 1..Len(Runs) /\ k = 0 /\ heap = << >>

\* replaced where there are further operations
Effect(h, o) == Apply(h, o)

Sets == {"cur", "orig", "warm", "trans", "accts", "awarm", "hashes"}
Observed(p, v) == IF p \in Sets THEN ToSet(v) ELSE v
Expected(h, g) == {<<x, p>> \in (DOMAIN g) \X Parts : x \notin DOMAIN h \/ h[x][p] # g[x][p]}
Wrong(g, want, ch) ==
  LET got == {<<ch[i][1], ch[i][2]>> : i \in 1..Len(ch)} IN
  ((got \ want) \cup (want \ got)) \cup {<<ch[i][1], ch[i][2]>> : i \in {j \in 1..Len(ch) : <<ch[j][1], ch[j][2]>> \in want /\ Observed(ch[j][2], ch[j][3]) # g[ch[j][1]][ch[j][2]]}}

Next ==
  /\ k < Len(Runs[c].ops)
  /\ LET o == Runs[c].ops[k + 1]
         x == Effect(heap, o)
         g == x[1]
         bad == IF o.p # "" THEN {"panic"} ELSE (IF o.r = x[2] THEN {} ELSE {"result"}) \cup {w[2] : w \in Wrong(g, Expected(heap, g), o.ch)}
     IN /\ heap' = g
        /\ c' = c
        /\ IF bad = {} THEN k' = k + 1
           ELSE k' = 1000000 /\ PrintT(ToString(<<"BAD", Runs[c].id, k + 1, o.op, bad, o.h, o.a, o.p, o.r, x[2], o.ch>>))
View == <<c, k>>
=============================================================================
