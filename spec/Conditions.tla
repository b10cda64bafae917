------------------------------- MODULE Conditions -------------------------------
(***************************************************************************)
(* The specification language of the conformance tool.  A rule applies to  *)
(* the states in which its condition holds; states for testing the rule    *)
(* are generated from the condition.                                       *)
(*                                                                         *)
(* Truth gives the meaning of conditions.  The real check of a condition   *)
(* in a state must yield it; states generated for a condition must satisfy *)
(* it; a condition a state of the tool certainly satisfies (Certain of     *)
(* StateGen, for the constraints it stands for) must not be reported       *)
(* unsatisfiable; and the test cases enumerated for a condition must       *)
(* include states on both sides of it.                                     *)
(*                                                                         *)
(* RUNS names an ndjson file of conditions and observations of them.       *)
(***************************************************************************)
EXTENDS StateGen

\* The value of an expression in a state: a pair of whether there is one, and it.
Value(x, S) ==
  CASE x.e = "pc" -> <<TRUE, FromNat(S.pc)>>
    [] x.e = "const" -> <<TRUE, Pad32(x.w)>>
    [] x.e = "param" -> IF x.i < S.n THEN <<TRUE, At(S, x.i)>> ELSE <<FALSE, Zero>>
    [] x.e = "gas" -> <<TRUE, Pad32(S.gas)>>
    [] x.e = "self" -> <<TRUE, Pad32(S.self)>>
    [] x.e = "status" -> <<TRUE, FromNat(S.st)>>
    [] x.e = "ro" -> <<TRUE, IF S.ro THEN One ELSE Zero>>
    [] x.e = "size" -> <<TRUE, FromNat(S.n)>>

Number(x, S) ==
  CASE x.e = "balance" -> LET a == Value(x.x, S) IN IF a[1] THEN <<TRUE, Pad32(AcctOf(S, a[2]).bal)>> ELSE a
    [] x.e = "op" -> LET p == Value(x.x, S) IN
         IF ~p[1] \/ IsDataAt(S, p[2]) THEN <<FALSE, Zero>>
         ELSE <<TRUE, FromNat(IF IsNat(p[2]) THEN OpAt(S.code, ToNat(p[2])) ELSE 0)>>
    [] OTHER -> Value(x, S)

Compare(t, a, b) == CASE t = "eq" -> a = b [] t = "ne" -> a # b
                      [] t = "lt" -> Slt(a, b) [] t = "le" -> Sle(a, b)
                      [] t = "gt" -> Slt(b, a) [] t = "ge" -> Sle(b, a)
CompareU(t, a, b) == CASE t = "eq" -> a = b [] t = "ne" -> a # b
                       [] t = "lt" -> Lt(a, b) [] t = "le" -> Le(a, b)
                       [] t = "gt" -> Lt(b, a) [] t = "ge" -> Le(b, a)

Comparisons == {"eq", "ne", "lt", "le", "gt", "ge"}
Bool(b) == IF b THEN "true" ELSE "false"

Truth(a, S) ==
  CASE a.t \in Comparisons ->
         LET v == Number(a.l, S) IN
         IF ~v[1] THEN "error"
         ELSE IF a.l.e = "gas" THEN Bool(Compare(a.t, v[2], Pad32(a.w))) ELSE Bool(CompareU(a.t, v[2], Pad32(a.w)))
    [] a.t = "rev" -> Bool(a.p <= S.rev /\ S.rev <= a.q)
    [] a.t = "destructed" -> Bool(S.sd)
    [] a.t = "not-destructed" -> Bool(~S.sd)
    [] a.t = "storage" ->
         LET k == Value(a.l, S)
             n == Value(a.r, S)
         IN IF ~k[1] \/ ~n[1] THEN "error"
            ELSE LET x == SlotOf(S, k[2]) IN Bool(StorageStatus(Pad32(x.o), Pad32(x.c), n[2]) = a.p)
    [] OTHER ->
         LET k == Value(a.l, S) IN
         IF ~k[1] THEN "error" ELSE
         CASE a.t = "code" -> Bool(~IsDataAt(S, k[2]))
           [] a.t = "data" -> Bool(IsDataAt(S, k[2]))
           [] a.t = "slot-warm" -> Bool(SlotOf(S, k[2]).w)
           [] a.t = "slot-cold" -> Bool(~SlotOf(S, k[2]).w)
           [] a.t = "transient-set" -> Bool(Pad32(SlotOf(S, k[2]).t) # Zero)
           [] a.t = "transient-zero" -> Bool(Pad32(SlotOf(S, k[2]).t) = Zero)
           [] a.t = "empty" -> Bool(IsEmptyAcct(AcctOf(S, k[2])))
           [] a.t = "nonempty" -> Bool(~IsEmptyAcct(AcctOf(S, k[2])))
           [] a.t = "account-warm" -> Bool(AcctOf(S, k[2]).w)
           [] a.t = "account-cold" -> Bool(~AcctOf(S, k[2]).w)
           [] a.t = "recent" -> Bool(Recent(Pad32(S.block), k[2]))
           [] a.t = "not-recent" -> Bool(~Recent(Pad32(S.block), k[2]))
           [] a.t = "blob" -> Bool(IsNat(k[2]) /\ ToNat(k[2]) < S.blobs)
           [] a.t = "no-blob" -> Bool(~(IsNat(k[2]) /\ ToNat(k[2]) < S.blobs))

\* A conjunction stops at its first element that does not hold.
RECURSIVE Conj(_, _)
Conj(as, S) == IF as = << >> THEN "true" ELSE LET t == Truth(as[1], S) IN IF t = "true" THEN Conj(Tail(as), S) ELSE t

-----------------------------------------------------------------------------
(* The constraints a condition stands for.                                 *)
None == [t |-> "", v |-> "", u |-> "", p |-> 0, q |-> 0, w |-> << >>, b |-> FALSE]
Var(x) == CASE x.e = "param" -> "p" \o ToString(x.i) [] x.e = "pc" -> "PC" [] x.e = "self" -> "self"
            [] OTHER -> "c" \o ToString(Pad32(x.w))
Bind(x) == CASE x.e = "param" -> << [None EXCEPT !.t = "stackvar", !.v = Var(x), !.p = x.i] >>
             [] x.e = "pc" -> << [None EXCEPT !.t = "pcvar", !.v = "PC"] >>
             [] x.e = "self" -> << [None EXCEPT !.t = "selfvar", !.v = "self"] >>
             [] OTHER -> << [None EXCEPT !.t = "value", !.v = Var(x), !.w = x.w] >>

Constraints(a) ==
  LET w == Pad32(a.w)
      n == IF ToNat(w) < Huge THEN ToNat(w) ELSE 0
      \* of something with bounds, named t: equal, at least, at most
      Ranged(t, c, dec, inc) ==
        CASE a.t \in {"eq", "ne"} -> << [c EXCEPT !.t = t \o ">="], [c EXCEPT !.t = t \o "<="] >>
          [] a.t = "le" -> << [c EXCEPT !.t = t \o "<="] >>
          [] a.t = "lt" -> << [dec EXCEPT !.t = t \o "<="] >>
          [] a.t = "ge" -> << [c EXCEPT !.t = t \o ">="] >>
          [] a.t = "gt" -> << [inc EXCEPT !.t = t \o ">="] >>
      Pred(t, b) == Bind(a.l) \o << [None EXCEPT !.t = t, !.v = Var(a.l), !.b = b] >>
  IN
  CASE a.t \in Comparisons ->
         (CASE a.l.e = "status" -> << [None EXCEPT !.t = "status", !.p = n] >>
            [] a.l.e = "pc" -> << [None EXCEPT !.t = "pc", !.p = n] >>
            [] a.l.e = "self" -> << [None EXCEPT !.t = "self", !.w = a.w] >>
            [] a.l.e = "ro" -> << [None EXCEPT !.t = "ro", !.b = n = 1] >>
            [] a.l.e = "param" -> << [None EXCEPT !.t = "stack", !.p = a.l.i, !.w = a.w] >>
            [] a.l.e = "gas" -> Ranged("gas", [None EXCEPT !.w = w], [None EXCEPT !.w = Sub(w, One)], [None EXCEPT !.w = Add(w, One)])
            [] a.l.e = "size" -> Ranged("size", [None EXCEPT !.p = n], [None EXCEPT !.p = n - 1], [None EXCEPT !.p = n + 1])
            [] a.l.e = "balance" -> LET c == [None EXCEPT !.v = Var(a.l.x)] IN
                 Bind(a.l.x) \o Ranged("balance", [c EXCEPT !.w = w], [c EXCEPT !.w = Sub(w, One)], [c EXCEPT !.w = Add(w, One)])
            [] a.l.e = "op" -> Bind(a.l.x) \o << [None EXCEPT !.t = "opvar", !.v = Var(a.l.x), !.q = n] >>)
    [] a.t = "rev" -> << [None EXCEPT !.t = "rev", !.p = a.p, !.q = a.q] >>
    [] a.t = "destructed" -> << [None EXCEPT !.t = "destructed", !.b = TRUE] >>
    [] a.t = "not-destructed" -> << [None EXCEPT !.t = "destructed", !.b = FALSE] >>
    [] a.t = "storage" -> Bind(a.l) \o Bind(a.r) \o << [None EXCEPT !.t = "storage", !.v = Var(a.l), !.u = Var(a.r), !.p = a.p] >>
    [] a.t \in {"code", "data"} -> Pred(a.t, TRUE)
    [] a.t = "slot-warm" -> Pred("slot", TRUE) [] a.t = "slot-cold" -> Pred("slot", FALSE)
    [] a.t = "transient-set" -> Pred("transient", TRUE) [] a.t = "transient-zero" -> Pred("transient", FALSE)
    [] a.t = "empty" -> Pred("empty", TRUE) [] a.t = "nonempty" -> Pred("empty", FALSE)
    [] a.t = "account-warm" -> Pred("account", TRUE) [] a.t = "account-cold" -> Pred("account", FALSE)
    [] a.t = "recent" -> Pred("recent", TRUE) [] a.t = "not-recent" -> Pred("recent", FALSE)
    [] a.t = "blob" -> Pred("blob", TRUE) [] a.t = "no-blob" -> Pred("blob", FALSE)

All(as) == FoldLeft(LAMBDA acc, a : acc \o Constraints(a), << >>, as)

\* Comparisons that always hold or never do.
AllOnes == E([i \in 1..32 |-> 255])
Vacuous(a) ==
  \/ a.t = "lt" /\ Pad32(a.w) = Zero
  \/ a.t = "gt" /\ a.l.e = "balance" /\ Pad32(a.w) = AllOnes
\* (something different is always the same thing)
Different(a) == a.t = "ne"

Uses(a) == CASE a.t \in Comparisons -> (IF a.l.e \in {"balance", "op"} THEN {Var(a.l.x)} ELSE {a.l.e})
             [] a.t \in {"rev", "destructed", "not-destructed"} -> {a.t}
             [] a.t = "storage" -> {Var(a.l), Var(a.r)}
             [] OTHER -> {Var(a.l)}

(* A condition that certainly has a state satisfying it, which the         *)
(* generators find.                                                        *)
Satisfiable(as) ==
  /\ \A i \in 1..Len(as) : ~Vacuous(as[i])
  \* something that differs is only found on its own
  /\ (\E i \in 1..Len(as) : Different(as[i])) => Len(as) = 1
  /\ Certain(All(as))

\* A program counter is only given a value by constraints on the code.
Unbound(as) == MayBeUnbound(All(as))

(* Enumerations: independent elements are varied independently.            *)
Sampled(a) == ~(a.t \in Comparisons /\ a.l.e = "self")
Constant(x) == x.e = "const"
Simple(a) == a.t \in {"rev", "destructed", "not-destructed"} \/ (a.t \in Comparisons /\ a.l.e \in {"status", "ro", "gas", "size"})
\* (nor do different traits of accounts and slots depend on each other)
Trait(a) == CASE a.t \in {"slot-warm", "slot-cold"} -> 1 [] a.t \in {"transient-set", "transient-zero"} -> 2
              [] a.t \in {"account-warm", "account-cold"} -> 3 [] a.t \in {"empty", "nonempty"} -> 4 [] a.t \in {"blob", "no-blob"} -> 5 [] OTHER -> 0
\* (of a satisfiable condition)
Separate(a, b) == Trait(a) # 0 /\ Trait(b) # 0 /\ Trait(a) # Trait(b) /\ {a.l.e, b.l.e} = {"param"}
TwoTraits(as) == Len(as) = 2 /\ Separate(as[1], as[2]) /\ 5 \notin {Trait(as[1]), Trait(as[2])}
Hittable(as) == TwoTraits(as) \/
  /\ Satisfiable(as) /\ ~Unbound(as)
  /\ \A i \in 1..Len(as) : as[i].t \in {"recent", "not-recent"} => ~Constant(as[i].l) /\ Len(as) = 1
  /\ (Len(as) = 2 /\ ~Separate(as[1], as[2])) => Simple(as[1]) /\ as[1].t # as[2].t /\ (as[2].t \in Comparisons => as[1].t \notin Comparisons \/ as[1].l.e # as[2].l.e) /\ Uses(as[1]) \cap Uses(as[2]) = {}
  /\ Len(as) <= 2
  /\ Len(as) = 1 => ~(as[1].t = "ne" /\ as[1].l.e \in {"op", "ro"})

\* An element some test case must violate.
Refutable(a) ==
  CASE a.t \in Comparisons ->
         /\ a.l.e # "ro"
         /\ a.l.e \in {"gas", "size", "balance"} => ~(a.t = "ge" /\ Pad32(a.w) = Zero)
         /\ a.l.e = "size" => ~(a.t = "le" /\ Pad32(a.w) = FromNat(1024))
         /\ a.l.e = "balance" => ~(a.t = "le" /\ Pad32(a.w) = AllOnes)
         /\ a.l.e = "op" => ~Constant(a.l.x)
    [] a.t = "rev" -> a.p # a.q
    [] a.t \in {"storage", "account-warm", "account-cold", "recent", "not-recent"} -> FALSE
    [] a.t = "destructed" \/ a.t = "not-destructed" -> TRUE
    [] a.t = "code" -> ~Constant(a.l)
    [] OTHER -> ~Constant(a.l)

-----------------------------------------------------------------------------
CInit == vRun \in 1..Len(Runs) /\ vPos = 0 /\ vPool = << >> /\ vSeen = {}

Wrong(what, info) == PrintT(ToString(<<"BAD", Runs[vRun].id, what, info>>))
Ready(S) == [S EXCEPT !.self = Pad32(@)] @@ [data |-> DataOf(S.code)]

CNext ==
  LET r == Runs[vRun]
      as == r.atoms
      seen == TLCEval([i \in 1..Len(r.obs) |-> Conj(as, Ready(r.obs[i].s))])
      cases == {i \in 1..Len(r.obs) : r.obs[i].from = "case"}
  IN
  /\ vPos = 0 /\ vPos' = 1 /\ UNCHANGED <<vRun, vPool, vSeen>>
  /\ \A i \in 1..Len(r.obs) :
       LET o == r.obs[i] IN
       /\ IF o.check = seen[i] THEN TRUE ELSE Wrong("check", <<as, o.from, o.check, seen[i], [o.s EXCEPT !.code = << >>]>>)
       /\ IF o.from = "gen" /\ seen[i] # "true" THEN Wrong("generated", <<as, seen[i], [o.s EXCEPT !.code = << >>]>>) ELSE TRUE
  /\ IF r.out = "ok" THEN TRUE
     ELSE IF r.out = "unsat" THEN (IF Satisfiable(as) THEN Wrong("satisfiable", as) ELSE TRUE)
     ELSE IF r.out = "unbound" THEN (IF Unbound(as) THEN TRUE ELSE Wrong("unbound", as))
     ELSE Wrong("error", <<r.out, as>>)
  /\ IF r.all /\ Hittable(as) /\ ~\E i \in cases : seen[i] = "true" THEN Wrong("hit", as) ELSE TRUE
  /\ IF r.all /\ Len(as) = 1 /\ Hittable(as) /\ Refutable(as[1]) /\ ~\E i \in cases : seen[i] # "true" THEN Wrong("miss", as) ELSE TRUE
-----------------------------------------------------------------------------
(* Test cases for the parameters of a rule: in every state generated for   *)
(* it, each parameter takes its generated value and each of its samples,   *)
(* in all combinations, each once, and nothing else changes.  Nothing is   *)
(* produced after the consumer asked to stop.                              *)
RECURSIVE Tops(_, _, _)
Tops(cur, samples, i) ==
  IF i > Len(cur) THEN {<< >>}
  ELSE {<<x>> \o y : x \in {cur[i]} \cup SeqSet(samples[i]), y \in Tops(cur, samples, i + 1)}
RECURSIVE Cases(_, _, _)
Cases(cur, samples, i) == IF i > Len(cur) THEN 1 ELSE (1 + Len(samples[i])) * Cases(cur, samples, i + 1)

ENext ==
  LET r == Runs[vRun]
      Words(q) == [i \in 1..Len(q) |-> Pad32(q[i])]
      samples == TLCEval([i \in 1..Len(r.samples) |-> Words(r.samples[i])])
      rests == {r.cases[i].rest : i \in 1..Len(r.cases)}
      last == r.cases[Len(r.cases)].rest
  IN
  /\ vPos = 0 /\ vPos' = 1 /\ UNCHANGED <<vRun, vPool, vSeen>>
  /\ IF Len(r.cases) > r.stop THEN Wrong("stop", <<r.stop, Len(r.cases)>>) ELSE TRUE
  /\ IF r.cases = << >> THEN Wrong("nothing", r.samples) ELSE TRUE
  /\ \A x \in rests :
       LET cs == SelectSeq(r.cases, LAMBDA c : c.rest = x)
           tops == TLCEval([i \in 1..Len(cs) |-> Words(cs[i].top)])
           \* (the generated values come first)
           want == Tops(tops[1], samples, 1)
           n == Cases(tops[1], samples, 1)
           stopped == Len(r.cases) = r.stop /\ x = last
       IN /\ IF \A i \in 1..Len(cs) : Len(cs[i].top) = Min({Len(samples), cs[i].n}) /\ tops[i] \in want THEN TRUE ELSE Wrong("cases", <<r.samples, tops>>)
          /\ IF stopped THEN (IF Len(cs) <= n THEN TRUE ELSE Wrong("number", <<n, Len(cs)>>))
             ELSE IF Len(cs) = n /\ SeqSet(tops) = want THEN TRUE ELSE Wrong("incomplete", <<n, Len(cs), r.samples, tops>>)

===============================================================================
