------------------------------- MODULE StateGen -------------------------------
(***************************************************************************)
(* The state generators of the conformance tool.                           *)
(*                                                                         *)
(* The state of the machine is a pool of generators, each of which is the  *)
(* sequence of the constraints added to it so far:                         *)
(*   new(g), add(g, c), clone(g, f) [g becomes a copy of f],               *)
(*   restore(g, f), gen(g, seed).                                          *)
(* A generation yields a state in which all constraints hold (Holds), or   *)
(* says that there is none, which must not happen if one is known to exist *)
(* (Certain); and it is a function of the constraints and the seed.        *)
(*                                                                         *)
(* RUNS names an ndjson file of histories recorded from the real code.     *)
(* Constraints are records [t kind, v variable, u second variable, p, q    *)
(* integers, w word, b boolean].  Every variable is bound to an element of *)
(* the stack, where its value is looked up.                                *)
(***************************************************************************)
EXTENDS Word, Json, IOUtils, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Runs == ndJsonDeserialize(IOEnv.RUNS)

VARIABLES vRun, vPos,
          vPool,     \* generator -> sequence of constraints
          vSeen      \* results so far: {<<constraints, seed, outcome, digest>>}
vars == <<vRun, vPos, vPool, vSeen>>
View == <<vRun, vPos>>

SeqSet(f) == {f[i] : i \in DOMAIN f}
MaxU64 == E([i \in 1..32 |-> IF i > 24 THEN 255 ELSE 0])
IsU64(w) == \A i \in 1..24 : w[i] = 0
Sle(a, b) == ~ Slt(b, a)
IsNat(w) == ToNat(w) < Huge

-----------------------------------------------------------------------------
(* Code: which positions hold instructions.                                *)
Width(op) == IF op \in 96..127 THEN op - 94 ELSE 1
CodeStarts(code) ==
  FoldLeft(LAMBDA acc, i : IF acc[1] > i THEN acc ELSE << i + Width(code[i]), acc[2] \cup {i - 1} >>, << 1, {} >>, E([i \in 1..Len(code) |-> i]))
\* (positions that are data, counting the missing data of a PUSH at the end)
DataOf(code) == LET c == CodeStarts(code) IN (0..(c[1] - 2)) \ c[2]
OpAt(code, pos) == IF pos < Len(code) THEN code[pos + 1] ELSE 0
IsDataAt(S, w) == IsNat(w) /\ ToNat(w) \in S.data
OpHolds(S, w, op) == IF IsNat(w) THEN ToNat(w) \notin S.data /\ OpAt(S.code, ToNat(w)) = op ELSE op = 0

-----------------------------------------------------------------------------
(* When a constraint holds in a state.                                     *)
At(S, i) == Pad32(S.stack[i + 1])
SlotOf(S, w) == CHOOSE x \in SeqSet(S.slots) : Pad32(x.k) = w
AcctOf(S, w) == CHOOSE x \in SeqSet(S.accts) : Pad32(x.a) = AddrOf(w)
IsEmptyAcct(a) == a.code = 0 /\ Pad32(a.bal) = Zero

\* 0 assigned, 1 added, 2 added deleted, 3 deleted restored, 4 deleted added,
\* 5 deleted, 6 modified, 7 modified deleted, 8 modified restored
StorageStatus(o, c, n) ==
  CASE c = n -> 0
    [] o = c /\ o = Zero -> 1
    [] o = c /\ n = Zero -> 5
    [] o = c -> 6
    [] o # c /\ o = Zero /\ n = Zero -> 2
    [] o # c /\ o = Zero -> 0
    [] o # c /\ c = Zero /\ n = o -> 3
    [] o # c /\ c = Zero -> 4
    [] o # c /\ n = Zero -> 7
    [] o # c /\ n = o -> 8
    [] OTHER -> 0

Recent(block, w) == Lt(w, block) /\ Le(Sub(block, w), FromNat(256))
OffsetHolds(block, w, p) == IF p >= 0 THEN ~Lt(block, FromNat(p)) /\ w = Sub(block, FromNat(p)) ELSE w = Add(block, FromNat(-p))

Holds(c, S, val) ==
  CASE c.t = "value" -> val[c.v] = Pad32(c.w)
    [] c.t = "status" -> S.st = c.p
    [] c.t = "rev" -> c.p <= S.rev /\ S.rev <= c.q
    [] c.t = "ro" -> S.ro = c.b
    [] c.t = "pc" -> S.pc = c.p
    [] c.t = "pcvar" -> FromNat(S.pc) = val[c.v]
    [] c.t = "self" -> Pad32(S.self) = Pad32(c.w)
    [] c.t = "selfvar" -> Pad32(S.self) = val[c.v]
    [] c.t = "gas" -> Pad32(S.gas) = Pad32(c.w)
    [] c.t = "gas>=" -> Sle(Pad32(c.w), Pad32(S.gas))
    [] c.t = "gas<=" -> Sle(Pad32(S.gas), Pad32(c.w))
    [] c.t = "ref" -> Pad32(S.ref) = Pad32(c.w)
    [] c.t = "ref>=" -> Sle(Pad32(c.w), Pad32(S.ref))
    [] c.t = "ref<=" -> Sle(Pad32(S.ref), Pad32(c.w))
    [] c.t = "op" -> OpHolds(S, FromNat(c.p), c.q)
    [] c.t = "opvar" -> OpHolds(S, val[c.v], c.q)
    [] c.t = "code" -> ~IsDataAt(S, val[c.v])
    [] c.t = "data" -> IsDataAt(S, val[c.v])
    [] c.t = "size" -> S.n = c.p
    [] c.t = "size>=" -> S.n >= c.p
    [] c.t = "size<=" -> S.n <= c.p
    [] c.t = "stack" -> S.n > c.p /\ At(S, c.p) = Pad32(c.w)
    [] c.t = "stackvar" -> S.n > c.p /\ (c.p < Len(S.stack) => At(S, c.p) = val[c.v])
    [] c.t = "storage" -> LET x == SlotOf(S, val[c.v]) IN StorageStatus(Pad32(x.o), Pad32(x.c), val[c.u]) = c.p
    [] c.t = "slot" -> SlotOf(S, val[c.v]).w = c.b
    [] c.t = "transient" -> (Pad32(SlotOf(S, val[c.v]).t) # Zero) = c.b
    [] c.t = "empty" -> IsEmptyAcct(AcctOf(S, val[c.v])) = c.b
    [] c.t = "balance>=" -> Le(Pad32(c.w), Pad32(AcctOf(S, val[c.v]).bal))
    [] c.t = "balance<=" -> Le(Pad32(AcctOf(S, val[c.v]).bal), Pad32(c.w))
    [] c.t = "account" -> AcctOf(S, val[c.v]).w = c.b
    [] c.t = "destructed" -> S.sd = c.b
    [] c.t = "recent" -> Recent(Pad32(S.block), val[c.v]) = c.b
    [] c.t = "offset" -> OffsetHolds(Pad32(S.block), val[c.v], c.p)
    [] c.t = "blob" -> (IsNat(val[c.v]) /\ ToNat(val[c.v]) < S.blobs) = c.b

\* What holds in all states.
MaxGas == E([i \in 1..32 |-> CASE i = 28 -> 116 [] i = 29 -> 106 [] i = 30 -> 82 [] i = 31 -> 136 [] i = 32 -> 0 [] OTHER -> 0])  \* 500 000 000 000
RevAt(w) == IF ~IsNat(w) \/ ToNat(w) >= 6000 THEN 6 ELSE ToNat(w) \div 1000
Sound(S) ==
  /\ S.st \in 0..3 /\ S.n \in 0..1024
  /\ Sle(Zero, Pad32(S.gas)) /\ Sle(Pad32(S.gas), MaxGas)
  /\ Sle(NegW(MaxGas), Pad32(S.ref)) /\ Sle(Pad32(S.ref), MaxGas)
  /\ S.rev = RevAt(Pad32(S.block)) /\ S.rev = RevAt(Pad32(S.time))
  /\ S.len <= 24576

\* The constraints that do not hold.
Broken(cs, S0) ==
  LET V == {cs[i].v : i \in 1..Len(cs)} \ {""}
      S == [S0 EXCEPT !.self = Pad32(@)] @@ [data |-> DataOf(S0.code)]
      pos == [v \in V |-> Min({cs[i].p : i \in {j \in 1..Len(cs) : cs[j].t = "stackvar" /\ cs[j].v = v}})]
      vs == {v \in V : pos[v] < Len(S.stack)}
      val == TLCEval([v \in vs |-> At(S, pos[v])])
  IN {cs[i] : i \in {j \in 1..Len(cs) : (cs[j].v \notin (vs \cup {""})) \/ ~Holds(cs[j], S, val)}}

-----------------------------------------------------------------------------
(* Constraint sets that certainly have a solution.  Variables are either   *)
(* bound to a value, or restricted by a single constraint.                 *)
Of(C, t) == {c \in C : c.t = t}
Max0(X, d) == IF X = {} THEN d ELSE Max(X)
Min0(X, d) == IF X = {} THEN d ELSE Min(X)
LeOf(a, b) == Sle(a, b)

Certain(cs) ==
  LET C == SeqSet(cs)
      B == Of(C, "value")
      bound == {c.v : c \in B}
      K == TLCEval([v \in bound |-> Pad32((CHOOSE c \in B : c.v = v).w)])
      Free(c) == c.v # "" /\ c.v \notin bound
      Known(c) == c.v \in bound
      Uses(v) == Cardinality({i \in 1..Len(cs) : (cs[i].v = v \/ cs[i].u = v) /\ cs[i].t \notin {"value", "stackvar"}})
                   + Cardinality({i \in 1..Len(cs) : cs[i].t = "storage" /\ cs[i].v = v /\ cs[i].u = v})
      Values == \A c \in B, d \in B : c.v = d.v => Pad32(c.w) = Pad32(d.w)
      Single == \A c \in C : /\ Free(c) => Uses(c.v) <= 1
                             /\ (c.u # "" /\ c.u \notin bound) => Uses(c.u) <= 1
      Status == Cardinality({c.p : c \in Of(C, "status")}) <= 1
      Ro == Cardinality({c.b : c \in Of(C, "ro")}) <= 1
      Sd == Cardinality({c.b : c \in Of(C, "destructed")}) <= 1
      Pc == /\ \A c \in Of(C, "pcvar") : Known(c) /\ IsNat(K[c.v]) /\ ToNat(K[c.v]) < 65536
            /\ Cardinality({c.p : c \in Of(C, "pc")} \cup {ToNat(K[c.v]) : c \in {d \in Of(C, "pcvar") : Known(d)}}) <= 1
      Bounds(n, lo, hi) ==
        \A x \in {Pad32(c.w) : c \in Of(C, n) \cup Of(C, n \o ">=")} \cup {lo} :
          \A y \in {Pad32(c.w) : c \in Of(C, n) \cup Of(C, n \o "<=")} \cup {hi} : Sle(x, y)
      Self == /\ Of(C, "selfvar") = {} \/ (\A c \in Of(C, "selfvar") : Known(c) /\ AddrOf(K[c.v]) = K[c.v])
              /\ Cardinality({Pad32(c.w) : c \in Of(C, "self")} \cup {K[c.v] : c \in {d \in Of(C, "selfvar") : Known(d)}}) <= 1
      \* code: operations at fixed positions, and at most one free position on its own
      Fixed == {<<c.p, c.q>> : c \in Of(C, "op")} \cup {<<ToNat(K[c.v]), c.q>> : c \in {d \in Of(C, "opvar") : Known(d)}}
      Data == UNION {{x[1] + i : i \in 1..(Width(x[2]) - 1)} : x \in Fixed}
      Starts == {x[1] : x \in Fixed}
      FreeCode == {i \in 1..Len(cs) : cs[i].t \in {"opvar", "code", "data"} /\ Free(cs[i])}
      IsC == {ToNat(K[c.v]) : c \in {d \in Of(C, "code") : Known(d)}}
      IsD == {ToNat(K[c.v]) : c \in {d \in Of(C, "data") : Known(d)}}
      \* (two constraints may not ask for an operation at the same position, even for the same)
      OpsOf == Of(C, "op") \cup {d \in Of(C, "opvar") : Known(d)}
      Code == /\ \A x \in Fixed : x[1] < 24576 /\ x[1] \notin Data
              /\ Cardinality({x[1] : x \in Fixed}) = Cardinality(OpsOf)
              /\ Cardinality(FreeCode) <= 1
              /\ (\E i \in FreeCode : cs[i].t = "data") => Fixed = {} /\ IsC = {} /\ IsD = {}
              /\ \/ IsC = {} /\ IsD = {}
                 \* a bound position is in the code, and nothing else is around it
                 \/ /\ Cardinality(IsC \cup IsD) = 1 /\ FreeCode = {}
                    /\ \A x \in IsC : Starts # {} /\ x <= Max(Starts) /\ x \notin Data
                    /\ \A x \in IsD : x \in Data /\ Max(Starts) > x
      Size == LET lo == Max({0} \cup {c.p : c \in Of(C, "size") \cup Of(C, "size>=")} \cup {c.p + 1 : c \in Of(C, "stack") \cup Of(C, "stackvar")})
                  hi == Min({1024} \cup {c.p : c \in Of(C, "size") \cup Of(C, "size<=")})
              IN lo <= hi
      Stack == /\ \A c \in Of(C, "stack"), d \in Of(C, "stack") : c.p = d.p => Pad32(c.w) = Pad32(d.w)
               /\ \A c \in Of(C, "stack"), d \in Of(C, "stackvar") : c.p = d.p => Known(d) /\ K[d.v] = Pad32(c.w)
               /\ \A c \in Of(C, "stackvar"), d \in Of(C, "stackvar") : (c.p = d.p /\ c.v # d.v) => Known(c) /\ Known(d) /\ K[c.v] = K[d.v]
      NewFits(c) == (c.u \in bound) => CASE c.p \in {2, 5, 7} -> K[c.u] = Zero
                                         [] OTHER -> K[c.u] # Zero
      SameKey(c, d) == IF Known(c) /\ Known(d) THEN K[c.v] = K[d.v] ELSE c.v = d.v
      Storage == /\ \A c \in Of(C, "storage") : NewFits(c)
                 /\ \A c \in Of(C, "storage"), d \in Of(C, "storage") : SameKey(c, d) => c = d
                 /\ \A c \in Of(C, "slot"), d \in Of(C, "slot") : SameKey(c, d) => c.b = d.b
      Transient == \A c \in Of(C, "transient"), d \in Of(C, "transient") : SameKey(c, d) => c.b = d.b
      SameAddr(c, d) == IF Known(c) /\ Known(d) THEN AddrOf(K[c.v]) = AddrOf(K[d.v]) ELSE c.v = d.v
      SelfAddrs == {Pad32(c.w) : c \in Of(C, "self")} \cup {K[c.v] : c \in {d \in Of(C, "selfvar") : Known(d)}}
      Accounts == /\ \A c \in Of(C, "empty"), d \in Of(C, "empty") : SameAddr(c, d) => c.b = d.b
                  /\ \A c \in Of(C, "account"), d \in Of(C, "account") : SameAddr(c, d) => c.b = d.b
                  /\ \A c \in Of(C, "balance>="), d \in Of(C, "balance<=") : SameAddr(c, d) => Le(Pad32(c.w), Pad32(d.w))
                  /\ \A c \in Of(C, "empty"), d \in Of(C, "balance>=") : (c.b /\ SameAddr(c, d)) => Pad32(d.w) = Zero
                  \* (the executing account is never empty)
                  /\ \A c \in Of(C, "empty") : c.b /\ Known(c) => AddrOf(K[c.v]) \notin SelfAddrs
      \* the number of the block: the least solution is the lower end of a range
      RevLo == Max0({c.p : c \in Of(C, "rev")}, 0)
      RevHi == Min0({c.q : c \in Of(C, "rev")}, 6)
      Recents == {c \in Of(C, "recent") : Known(c)}
      Offsets == {c \in Of(C, "offset") : Known(c)}
      Candidates == {FromNat(1000 * RevLo), FromNat(1000 * RevLo + 1)}
                      \cup UNION {{Add(K[c.v], One), Add(K[c.v], FromNat(257))} : c \in Recents}
                      \cup {IF c.p >= 0 THEN Add(K[c.v], FromNat(c.p)) ELSE Sub(K[c.v], FromNat(-c.p)) : c \in Offsets}
                      \cup {FromNat(c.p) : c \in {d \in Of(C, "offset") : d.p > 0}}
      BlockOK(n) == /\ Le(n, MaxU64) /\ Le(FromNat(1000 * RevLo), n) /\ RevAt(n) <= RevHi
                    /\ \A c \in Recents : Recent(n, K[c.v]) = c.b
                    /\ \A c \in Offsets : OffsetHolds(n, K[c.v], c.p)
                    /\ \A c \in Of(C, "recent") \ Recents : c.b => n # Zero
                    /\ \A c \in Of(C, "offset") \ Offsets : c.p > 0 => ~Lt(n, FromNat(c.p))
      Block == (\A c \in Of(C, "rev") : c.p <= c.q) /\ \E n \in Candidates : BlockOK(n)
      Present == {ToNat(K[c.v]) : c \in {d \in Of(C, "blob") : d.b /\ Known(d)}}
      Absent == {ToNat(K[c.v]) : c \in {d \in Of(C, "blob") : ~d.b /\ Known(d)}}
      Blobs == /\ \A x \in Present : x < 200 /\ \A y \in Absent : x < y
               /\ (\E c \in Of(C, "blob") : c.b /\ Free(c)) => 0 \notin Absent
  IN /\ Values /\ Single /\ Status /\ Ro /\ Sd /\ Pc
     /\ Bounds("gas", Zero, MaxGas) /\ Bounds("ref", NegW(MaxGas), MaxGas)
     /\ Self /\ Code /\ Size /\ Stack /\ Storage /\ Transient /\ Accounts /\ Block /\ Blobs

\* A counter may be bound to a variable nothing gives a value to.
MayBeUnbound(cs) ==
  \E i \in 1..Len(cs) :
    \/ /\ cs[i].t \in {"pcvar", "stackvar"}
       /\ ~\E j \in 1..Len(cs) : cs[j].v = cs[i].v /\ cs[j].t \notin {"pcvar", "stackvar"}
       /\ ~\E j \in 1..Len(cs) : cs[j].u = cs[i].v
    \/ /\ cs[i].t = "pcvar"
       /\ ~\E j \in 1..Len(cs) : cs[j].v = cs[i].v /\ cs[j].t \in {"value", "opvar", "code", "data"}

-----------------------------------------------------------------------------
Init == vRun \in 1..Len(Runs) /\ vPos = 0 /\ vPool = << >> /\ vSeen = {}

Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Bad(what, info) == PrintT(ToString(<<"BAD", Runs[vRun].id, vPos + 1, what, info>>))

Judge(o, cs) ==
  IF o.out = "ok"
  THEN LET b == Broken(cs, o.s) IN
       /\ IF b = {} THEN TRUE ELSE Bad("broken", b)
       /\ IF Sound(o.s) THEN TRUE ELSE Bad("unsound", [o.s EXCEPT !.code = << >>])
  ELSE IF o.out = "unsat" THEN (IF Certain(cs) THEN Bad("satisfiable", cs) ELSE TRUE)
  ELSE IF o.out = "unbound" THEN (IF MayBeUnbound(cs) THEN TRUE ELSE Bad("unbound", cs))
  ELSE Bad("error", <<o.out, cs>>)

Next ==
  LET o == Runs[vRun].h[vPos + 1] IN
  /\ vPos < Len(Runs[vRun].h)
  /\ vPos' = vPos + 1 /\ vRun' = vRun
  /\ CASE o.op = "new" -> vPool' = Upd(vPool, o.g, << >>) /\ vSeen' = vSeen
       [] o.op = "add" -> vPool' = Upd(vPool, o.g, Append(vPool[o.g], o.c)) /\ vSeen' = vSeen
       [] o.op \in {"clone", "restore"} -> vPool' = Upd(vPool, o.g, vPool[o.f]) /\ vSeen' = vSeen
       [] o.op = "gen" ->
            LET cs == vPool[o.g]
                x == <<cs, o.seed, o.out, o.d>>
                other == {y \in vSeen : y[1] = cs /\ y[2] = o.seed /\ y # x}
                \* (the same question asked before has been answered before)
                again == \E y \in vSeen : y = x
            IN /\ vPool' = vPool /\ vSeen' = vSeen \cup {x}
               /\ IF other = {} THEN TRUE ELSE Bad("irreproducible", <<o.out, {y[3] : y \in other}, cs>>)
               /\ IF again THEN TRUE ELSE Judge(o, cs)

Inv == vPos >= 0
===============================================================================
