------------------------------ MODULE TypesTrace ------------------------------
(***************************************************************************)
(* Checks recorded calls of the value types (drivers/go/types) with Types. *)
(* A record has the name f of the function, its arguments and results;     *)
(* words are given without leading zeros.                                  *)
(***************************************************************************)
EXTENDS Types, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECORDS)
VARIABLE i
W(x) == Pad32(x)
Binary(x) ==
  LET a == W(x.a)  b == W(x.b) IN
  CASE x.f = "add" -> Add(a, b) [] x.f = "sub" -> Sub(a, b) [] x.f \in {"mul", "scale"} -> Mul(a, b)
    [] x.f = "div" -> Div(a, b) [] x.f = "sdiv" -> Sdiv(a, b) [] x.f = "mod" -> Mod(a, b) [] x.f = "smod" -> Smod(a, b)
    [] x.f = "exp" -> Exp(a, b) [] x.f = "signext" -> SignExtend(b, a)
    [] x.f = "and" -> WAnd(a, b) [] x.f = "or" -> WOr(a, b) [] x.f = "xor" -> WXor(a, b)
    [] x.f = "shl" -> Shl(b, a) [] x.f = "shr" -> Shr(b, a) [] x.f = "sar" -> Sar(b, a)
Binaries == {"add", "sub", "mul", "scale", "div", "sdiv", "mod", "smod", "exp", "signext", "and", "or", "xor", "shl", "shr", "sar"}
Holds(op, a, b) == CASE op = "lt" -> Lt(a, b) [] op = "gt" -> Gt(a, b) [] op = "slt" -> Slt(a, b) [] op = "sgt" -> Slt(b, a) [] op = "eq" -> a = b [] op = "ne" -> a # b
Concat(xs) == FoldLeft(LAMBDA acc, x : acc \o x, << >>, xs)
Pad8(x) == E([k \in 1..8 |-> IF k <= 8 - Len(x) THEN 0 ELSE x[k - 8 + Len(x)]])

OK(x) ==
  CASE x.f \in Binaries -> W(x.r) = Binary(x)
    [] x.f = "addmod" -> W(x.r) = AddMod(W(x.a), W(x.b), W(x.m))
    [] x.f = "mulmod" -> W(x.r) = MulMod(W(x.a), W(x.b), W(x.m))
    [] x.f = "not" -> W(x.r) = WNot(W(x.a))
    [] x.f = "rel" -> x.r = Holds(x.op, W(x.a), W(x.b))
    [] x.f = "cmp" -> x.r = (IF Lt(W(x.a), W(x.b)) THEN -1 ELSE IF W(x.a) = W(x.b) THEN 0 ELSE 1)
    [] x.f = "new" -> x.r = E([k \in 1..(32 - 8 * Len(x.args)) |-> 0]) \o Concat([k \in 1..Len(x.args) |-> Pad8(x.args[k])])
    [] x.f = "num" -> W(x.r) = W(x.a)
    [] x.f = "dec" -> IsDecimal(x.s, W(x.a))
    [] x.f = "low20" -> W(x.r) = AddrOf(W(x.a))
    [] x.f = "flags" -> x.zero = (Len(x.a) = 0) /\ x.u64 = (Len(x.a) <= 8)
    [] x.f = "panic" -> x.want = x.got
    [] x.f = "status" -> x.r = Status(W(x.o), W(x.c), W(x.n))
    [] x.f = "statusname" -> x.n \in 0..8 /\ x.name = StatusNames[x.n + 1]
    [] x.f = "statuses" -> x.n = 9
    [] x.f = "words" -> W(x.r) = SizeInWords(W(x.a))
    [] x.f = "text" -> x.s = Text(x.a)
    [] x.f = "parse" -> IF IsText(x.s, x.w) THEN x.ok /\ x.r = Bytes(x.s) ELSE ~x.ok /\ x.r = x.before
    [] x.f = "utext" -> x.s = UText(x.a)
    [] x.f = "uparse" -> IF IsUText(x.s) THEN x.ok /\ x.r = UBytes(x.s) ELSE ~x.ok /\ x.r = FromNat(7)
    [] x.f = "rev" -> x.s = RevisionText(x.n)
    [] x.f = "revparse" -> x.shown /\ IF IsRevision(x.s) THEN x.ok /\ x.r = RevisionOf(x.s) ELSE ~x.ok /\ x.r = DecOf(77)
    [] x.f = "raw" -> ~x.ok /\ x.same
    [] x.f = "revisions" -> Len(x.r) = 6 /\ {x.r[k] : k \in 1..6} = 0..5
    [] x.f = "kind" -> IF x.name = "none" THEN ~x.ok /\ x.text = "unknown" ELSE x.ok /\ x.s = x.name /\ x.text = x.name
    [] x.f = "kindparse" -> IF KindsOf(x.s) = {} THEN ~x.ok /\ x.r = "kept" ELSE x.ok /\ x.r \in KindsOf(x.s)
    [] x.f = "bytes" -> x.ok /\ x.r = x.a /\ x.n = Len(x.a) /\ x.s = Text(x.a)
    [] x.f = "slice" -> x.r = SubSeq(x.a, x.lo + 1, x.hi)
    [] x.f = "pad" -> LET z == E([k \in 1..Max({0, x.n - Len(x.a)}) |-> 0])
                      IN x.r = IF x.n < Len(x.a) THEN SubSeq(x.a, 1, x.n) ELSE IF x.side = "left" THEN z \o x.a ELSE x.a \o z
    [] x.f = "between" -> Le(W(x.a), W(x.r)) /\ Le(W(x.r), W(x.b))
    [] x.f = "block" -> x.r = RevisionAt(x.n)
    [] x.f = "bigblock" -> x.r = 99
    [] x.f = "fork" -> x.ok /\ x.block = 1000 * x.rev /\ x.time = 1000 * x.rev /\ x.len = 1000
    [] x.f = "hashes" -> x.same /\ ~x.other

Init == i \in 1..Len(Recs)
Next == /\ i > 0
        /\ IF OK(Recs[i]) THEN TRUE ELSE PrintT(ToString(<<"BAD", i, Recs[i]>>))
        /\ i' = 0
==============================================================================
