--------------------------------- MODULE Evm ---------------------------------
(***************************************************************************)
(* The Ethereum virtual machine, Istanbul to Cancun, as a transition       *)
(* system: one execution frame running a code in the context given by a    *)
(* case record X, together with the part of the world that the frame can   *)
(* observe or change.  Exec(X, s) is the state after the next instruction. *)
(*                                                                         *)
(* Nested calls are issued as messages; what they return is part of the    *)
(* case (X.calls), so that every possible result of a nested call can be   *)
(* explored.                                                               *)
(*                                                                         *)
(* Case record X:                                                          *)
(*   rev      revision (see Instr)          static   read-only frame       *)
(*   depth    call depth                    code, input   byte sequences   *)
(*   gas      gas limit (amount)          env  words by name: self,      *)
(*     sender, value, origin, gasprice, coinbase, number, timestamp,       *)
(*     gaslimit, prevrandao, chainid, basefee, blobbasefee                 *)
(*   blobs    blob hashes                                                  *)
(*   accts    accounts [a, bal, code, hash, ex]                            *)
(*   slots    storage of the running account [k, o(riginal), c(urrent)]    *)
(*   trans    transient storage [k, v]                                     *)
(*   wa, ws   accounts and slots that are warm at the start                *)
(*   stack    words on the stack at the start (empty for a new frame)      *)
(*   calls    results of nested calls [st (0 success, 1 revert, 2          *)
(*     failure), gas, ref, out, addr, writes]                              *)
(* Words in cases are trimmed byte sequences.                              *)
(*                                                                         *)
(* Gas is a pair <<h, l>> = h * 2^30 + l, since TLC's integers have 32     *)
(* bits; costs are plain integers below Inf = 2^29, where Inf stands for   *)
(* "more than any gas limit of a case in which it occurs".                 *)
(***************************************************************************)
EXTENDS Word, Instr
K == INSTANCE Keccak

MaxStack == 1024
MaxInitCode == 49152
Inf == 536870912

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* --- gas ----------------------------------------------------------------------
(* Amounts of up to 63 bits: <<a, b, c>> is a * 2^60 + b * 2^30 + c.           *)
GBase == 1073741824
GLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
GMin(a, b) == IF GLess(a, b) THEN a ELSE b
\* minus / plus a plain amount below GBase
GSub(a, n) == IF a[3] >= n THEN <<a[1], a[2], a[3] - n>>
              ELSE IF a[2] > 0 THEN <<a[1], a[2] - 1, (GBase - n) + a[3]>> ELSE <<a[1] - 1, GBase - 1, (GBase - n) + a[3]>>
GAddN(a, n) == IF a[3] < GBase - n THEN <<a[1], a[2], a[3] + n>>
               ELSE IF a[2] < GBase - 1 THEN <<a[1], a[2] + 1, a[3] - (GBase - n)>> ELSE <<a[1] + 1, 0, a[3] - (GBase - n)>>
GSubG(a, b) == LET t == GSub(a, b[3]) IN
               IF t[2] >= b[2] THEN <<t[1] - b[1], t[2] - b[2], t[3]>> ELSE <<(t[1] - b[1]) - 1, (GBase - b[2]) + t[2], t[3]>>
GAddG(a, b) == LET t == GAddN(a, b[3]) IN
               IF t[2] < GBase - b[2] THEN <<t[1] + b[1], t[2] + b[2], t[3]>> ELSE <<t[1] + b[1] + 1, t[2] - (GBase - b[2]), t[3]>>
\* does a cover the cost n?
GCovers(a, n) == n < Inf /\ (a[1] > 0 \/ a[2] > 0 \/ a[3] >= n)
\* a - floor(a / 64)
AllBut64th(a) == GSubG(a, <<0, (a[1] * 16777216) + (a[2] \div 64), ((a[2] % 64) * 16777216) + (a[3] \div 64)>>)
GZero == <<0, 0, 0>>
GMax == <<7, GBase - 1, GBase - 1>>
GWord(a) == E([i \in 1..32 |->
              CASE i = 32 -> a[3] % 256
                [] i = 31 -> (a[3] \div 256) % 256
                [] i = 30 -> (a[3] \div 65536) % 256
                [] i = 29 -> (a[3] \div 16777216) + (64 * (a[2] % 4))
                [] i = 28 -> (a[2] \div 4) % 256
                [] i = 27 -> (a[2] \div 1024) % 256
                [] i = 26 -> (a[2] \div 262144) % 256
                [] i = 25 -> (a[2] \div 67108864) + (16 * a[1])
                [] OTHER -> 0])
\* Word as gas; GMax when it is 2^63 or more.
WordG(w) == IF w[25] >= 128 \/ \E i \in 1..24 : w[i] # 0 THEN GMax
            ELSE << w[25] \div 16,
                    ((w[25] % 16) * 67108864) + (w[26] * 262144) + (w[27] * 1024) + (w[28] * 4) + (w[29] \div 64),
                    ((w[29] % 64) * 16777216) + (w[30] * 65536) + (w[31] * 256) + w[32] >>

\* --- memory -------------------------------------------------------------------
(* mem holds the bytes up to the last one written; everything beyond is zero. *)
(* msz is the visible size.                                                   *)
Zeros(n) == E([i \in 1..n |-> 0])
\* n bytes of the byte sequence b from (0-based) position off, zero padded
Slice(b, off, n) ==
  IF n = 0 THEN << >>
  ELSE IF off >= Len(b) THEN Zeros(n)
  ELSE IF off + n <= Len(b) THEN SubSeq(b, off + 1, off + n)
  ELSE SubSeq(b, off + 1, Len(b)) \o Zeros(off + n - Len(b))
\* the same for an arbitrary word as position
SliceW(b, w, n) == LET o == ToNat(w) IN Slice(b, o, n)
MemWrite(mem, off, bytes) ==
  LET n == Len(bytes) IN
  IF n = 0 THEN mem
  ELSE IF off + n <= Len(mem) THEN SubSeq(mem, 1, off) \o bytes \o SubSeq(mem, off + n + 1, Len(mem))
  ELSE IF off <= Len(mem) THEN SubSeq(mem, 1, off) \o bytes
  ELSE mem \o Zeros(off - Len(mem)) \o bytes
Words32(n) == (n + 31) \div 32
\* Memory sizes in a case stay below this bound or cost more than its gas.
MemLimit == 16777216
\* End of the region (offset and size words); Inf when beyond MemLimit.
RegionEnd(off, size) ==
  IF IsZero(size) THEN 0
  ELSE LET o == ToNat(off)  n == ToNat(size)
       IN IF o > MemLimit \/ n > MemLimit \/ o + n > MemLimit THEN Inf ELSE o + n
\* Total cost of a memory of w words, w <= 2^19.
MemCost(w) == 3 * w + (w \div 512) * w + ((w % 512) * w) \div 512

\* --- machine state -------------------------------------------------------------
FunOf(seq, Key(_), Val(_)) ==
  FoldLeft(LAMBDA f, e : [x \in DOMAIN f \cup {Key(e)} |-> IF x = Key(e) THEN Val(e) ELSE f[x]], << >>, seq)
SetOf(seq) == {Pad32(seq[i]) : i \in 1..Len(seq)}

Start(X) ==
  [status |-> "run", why |-> {}, pc |-> 0, gas |-> X.gas, ref |-> 0,
   stack |-> E([i \in 1..Len(X.stack) |-> E(Pad32(X.stack[i]))]), mem |-> << >>, msz |-> 0, ret |-> << >>, out |-> << >>,
   bal |-> FunOf(X.accts, LAMBDA e : Pad32(e.a), LAMBDA e : Pad32(e.bal)),
   ex |-> {Pad32(X.accts[i].a) : i \in {j \in 1..Len(X.accts) : X.accts[j].ex}},
   stor |-> FunOf(X.slots, LAMBDA e : Pad32(e.k), LAMBDA e : [o |-> Pad32(e.o), c |-> Pad32(e.c)]),
   trans |-> FunOf(X.trans, LAMBDA e : Pad32(e.k), LAMBDA e : Pad32(e.v)),
   wa |-> SetOf(X.wa), ws |-> SetOf(X.ws), ncalls |-> 0, eff |-> << >>]

Self(X) == Pad32(X.env.self)
BalOf(s, a) == IF a \in DOMAIN s.bal THEN s.bal[a] ELSE Zero
SlotOf(s, k) == IF k \in DOMAIN s.stor THEN s.stor[k] ELSE [o |-> Zero, c |-> Zero]
TransOf(s, k) == IF k \in DOMAIN s.trans THEN s.trans[k] ELSE Zero
AcctIdx(X, a) == {i \in 1..Len(X.accts) : Pad32(X.accts[i].a) = a}
CodeOf(X, a) == IF AcctIdx(X, a) = {} THEN << >> ELSE X.accts[CHOOSE i \in AcctIdx(X, a) : TRUE].code
HashOf(X, a) == IF AcctIdx(X, a) = {} THEN Zero ELSE Pad32(X.accts[CHOOSE i \in AcctIdx(X, a) : TRUE].hash)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
BlockHash(w) == E([i \in 1..32 |-> (w[32] + ((i - 1) * 13) + 1) % 256])

S(s, i) == s.stack[Len(s.stack) - i]           \* i-th stack operand, 0 is the top
Drop(s, n) == SubSeq(s.stack, 1, Len(s.stack) - n)

\* --- valid jump destinations ------------------------------------------------------
Dests(code) ==
  FoldLeft(LAMBDA acc, i : << ScanByte(acc[1], code[i]),
                              IF IsDest(acc[1], code[i]) THEN acc[2] \cup {i - 1} ELSE acc[2] >>,
           << 0, {} >>, E([i \in 1..Len(code) |-> i]))[2]
ValidDest(X, w) == LET n == ToNat(w) IN n < Len(X.code) /\ X.code[n + 1] = 91 /\ n \in Dests(X.code)

\* --- instruction classes ------------------------------------------------------------
LogOps == {"LOG0", "LOG1", "LOG2", "LOG3", "LOG4"}
CreateOps == {"CREATE", "CREATE2"}
CallOps == {"CALL", "CALLCODE", "DELEGATECALL", "STATICCALL"}
\* Instructions that always change the world.
WriteOps == LogOps \cup CreateOps \cup {"SSTORE", "TSTORE", "SELFDESTRUCT"}

\* Memory regions touched, as <<offset, size>> pairs of words.
Regions(name, s) ==
  CASE name \in {"SHA3", "RETURN", "REVERT"} \cup LogOps -> << <<S(s, 0), S(s, 1)>> >>
    [] name \in {"CALLDATACOPY", "CODECOPY", "RETURNDATACOPY"} -> << <<S(s, 0), S(s, 2)>> >>
    [] name = "EXTCODECOPY" -> << <<S(s, 1), S(s, 3)>> >>
    [] name \in {"MLOAD", "MSTORE"} -> << <<S(s, 0), FromNat(32)>> >>
    [] name = "MSTORE8" -> << <<S(s, 0), One>> >>
    [] name = "MCOPY" -> << <<S(s, 0), S(s, 2)>>, <<S(s, 1), S(s, 2)>> >>
    [] name \in CreateOps -> << <<S(s, 1), S(s, 2)>> >>
    [] name \in {"CALL", "CALLCODE"} -> << <<S(s, 3), S(s, 4)>>, <<S(s, 5), S(s, 6)>> >>
    [] name \in {"DELEGATECALL", "STATICCALL"} -> << <<S(s, 2), S(s, 3)>>, <<S(s, 4), S(s, 5)>> >>
    [] OTHER -> << >>
\* Size of the memory after the access (Inf: beyond every gas limit).
NewSize(name, s) ==
  LET R == Regions(name, s)
      end == FoldLeft(LAMBDA m, r : Max2(m, RegionEnd(r[1], r[2])), 0, R)
  IN IF end = Inf THEN Inf ELSE Max2(s.msz, 32 * Words32(end))
\* Copied or hashed bytes that are charged per word, and the price of a word.
WordPrice(name) == CASE name \in {"SHA3", "CREATE2"} -> 6
                     [] name \in {"CALLDATACOPY", "CODECOPY", "RETURNDATACOPY", "EXTCODECOPY", "MCOPY"} -> 3
                     [] OTHER -> 0
SizeOperand(name, s) == CASE name \in {"SHA3"} \cup LogOps -> S(s, 1)
                          [] name \in {"CALLDATACOPY", "CODECOPY", "RETURNDATACOPY", "MCOPY"} \cup CreateOps -> S(s, 2)
                          [] name = "EXTCODECOPY" -> S(s, 3)
                          [] OTHER -> Zero

\* The account whose access is priced.
AccountOps == {"BALANCE", "EXTCODESIZE", "EXTCODECOPY", "EXTCODEHASH", "SELFDESTRUCT"} \cup CallOps
AccountOperand(name, s) == AddrOf(IF name \in CallOps THEN S(s, 1) ELSE S(s, 0))
AccessCost(X, s, name) ==
  IF name \notin AccountOps THEN 0
  ELSE LET warm == AccountOperand(name, s) \in s.wa IN
       IF name = "SELFDESTRUCT" THEN (IF X.rev >= Berlin /\ ~warm THEN 2600 ELSE 0)
       ELSE IF X.rev < Berlin THEN 700
       ELSE IF warm THEN 100 ELSE 2600

\* Storage writes: net gas metering (EIP-2200, 2929, 3529).
StoreCost(X, s) ==
  LET k == S(s, 0)  v == S(s, 1)  e == SlotOf(s, k)
      base == IF X.rev >= Berlin THEN 100 ELSE 800
      reset == IF X.rev >= Berlin THEN 2900 ELSE 5000
      cold == IF X.rev >= Berlin /\ k \notin s.ws THEN 2100 ELSE 0
  IN cold + (IF e.c = v \/ e.o # e.c THEN base ELSE IF IsZero(e.o) THEN 20000 ELSE reset)
StoreRefund(X, e, v) ==
  LET clear == IF X.rev >= London THEN 4800 ELSE 15000
      base == IF X.rev >= Berlin THEN 100 ELSE 800
      reset == IF X.rev >= Berlin THEN 2900 ELSE 5000
  IN IF e.c = v THEN 0
     ELSE IF e.o = e.c THEN (IF ~IsZero(e.o) /\ IsZero(v) THEN clear ELSE 0)
     ELSE (IF IsZero(e.o) THEN 0 ELSE IF IsZero(e.c) THEN -clear ELSE IF IsZero(v) THEN clear ELSE 0)
          + (IF e.o # v THEN 0 ELSE IF IsZero(e.o) THEN 20000 - base ELSE reset - base)

HasValue(name, s) == name \in {"CALL", "CALLCODE"} /\ ~IsZero(S(s, 2))

\* Gas cost beyond the static part of Instr.
DynCost(X, s, name) ==
  LET size == NewSize(name, s) IN
  IF size = Inf THEN Inf
  ELSE LET mem == MemCost(Words32(size)) - MemCost(Words32(s.msz))
           n == ToNat(SizeOperand(name, s))
           words == IF WordPrice(name) = 0 THEN 0 ELSE WordPrice(name) * Words32(n)
           special ==
             CASE name = "EXP" -> 50 * ByteLen(S(s, 1))
               [] name \in LogOps -> 8 * n
               [] name = "SLOAD" -> IF X.rev < Berlin THEN 800 ELSE IF S(s, 0) \in s.ws THEN 100 ELSE 2100
               [] name = "SSTORE" -> StoreCost(X, s)
               [] name = "SELFDESTRUCT" -> IF ~IsZero(BalOf(s, Self(X))) /\ AddrOf(S(s, 0)) \notin s.ex THEN 25000 ELSE 0
               [] name \in CreateOps -> IF X.rev >= Shanghai THEN 2 * Words32(n) ELSE 0
               [] name \in CallOps -> (IF HasValue(name, s) THEN 9000 ELSE 0)
                                      + (IF name = "CALL" /\ HasValue(name, s) /\ AddrOf(S(s, 1)) \notin s.ex
                                         THEN 25000 ELSE 0)
               [] OTHER -> 0
       IN mem + words + special + AccessCost(X, s, name)

\* Reasons other than gas, stack and availability for which an instruction fails.
DynWhy(X, s, name) ==
  (IF name = "JUMP" /\ ~ValidDest(X, S(s, 0)) THEN {"jump"} ELSE {})
  \cup (IF name = "JUMPI" /\ ~IsZero(S(s, 1)) /\ ~ValidDest(X, S(s, 0)) THEN {"jump"} ELSE {})
  \cup (IF name = "RETURNDATACOPY" /\ (AddOverflows(S(s, 1), S(s, 2)) \/ Gt(Add(S(s, 1), S(s, 2)), FromNat(Len(s.ret))))
        THEN {"retcopy"} ELSE {})
  \cup (IF name \in CreateOps /\ X.rev >= Shanghai /\ Gt(S(s, 2), FromNat(MaxInitCode)) THEN {"initcode"} ELSE {})
  \cup (IF name = "CALL" /\ X.static /\ HasValue(name, s) THEN {"static"} ELSE {})
  \cup (IF name = "SSTORE" /\ s.gas[1] = 0 /\ s.gas[2] = 0 /\ s.gas[3] <= 2300 THEN {"oog"} ELSE {})

\* --- results --------------------------------------------------------------------------
Fail(s, why) == [s EXCEPT !.status = "fail", !.why = why, !.gas = GZero, !.out = << >>]
\* Replace the n operands by the words in ws (bottom first) and go on.
Res(s, n, ws) == [s EXCEPT !.stack = Drop(s, n) \o ws, !.pc = @ + 1]
Eff(s, e) == [s EXCEPT !.eff = Append(@, e)]

Unary(name, a) ==
  CASE name = "ISZERO" -> FromBool(IsZero(a)) [] name = "NOT" -> WNot(a)
BinaryOps == {"ADD", "MUL", "SUB", "DIV", "SDIV", "MOD", "SMOD", "EXP", "SIGNEXTEND", "LT", "GT", "SLT", "SGT",
              "EQ", "AND", "OR", "XOR", "BYTE", "SHL", "SHR", "SAR"}
Binary(name, a, b) ==
  CASE name = "ADD" -> Add(a, b)      [] name = "MUL" -> Mul(a, b)     [] name = "SUB" -> Sub(a, b)
    [] name = "DIV" -> Div(a, b)      [] name = "SDIV" -> Sdiv(a, b)   [] name = "MOD" -> Mod(a, b)
    [] name = "SMOD" -> Smod(a, b)    [] name = "EXP" -> Exp(a, b)     [] name = "SIGNEXTEND" -> SignExtend(a, b)
    [] name = "LT" -> FromBool(Lt(a, b))    [] name = "GT" -> FromBool(Gt(a, b))
    [] name = "SLT" -> FromBool(Slt(a, b))  [] name = "SGT" -> FromBool(Slt(b, a))
    [] name = "EQ" -> FromBool(a = b)
    [] name = "AND" -> WAnd(a, b)     [] name = "OR" -> WOr(a, b)      [] name = "XOR" -> WXor(a, b)
    [] name = "BYTE" -> ByteOf(a, b)  [] name = "SHL" -> E(Shl(a, b))
    [] name = "SHR" -> E(Shr(a, b))   [] name = "SAR" -> E(Sar(a, b))

\* Context values pushed without operands.
ContextOps == {"ADDRESS", "ORIGIN", "CALLER", "CALLVALUE", "CALLDATASIZE", "CODESIZE", "GASPRICE", "RETURNDATASIZE",
               "COINBASE", "TIMESTAMP", "NUMBER", "PREVRANDAO", "GASLIMIT", "CHAINID", "SELFBALANCE", "BASEFEE",
               "BLOBBASEFEE", "PC", "MSIZE", "GAS", "PUSH0"}
Context(X, s, name) ==
  CASE name = "ADDRESS" -> Self(X)
    [] name = "ORIGIN" -> Pad32(X.env.origin)        [] name = "CALLER" -> Pad32(X.env.sender)
    [] name = "CALLVALUE" -> Pad32(X.env.value)      [] name = "CALLDATASIZE" -> FromNat(Len(X.input))
    [] name = "CODESIZE" -> FromNat(Len(X.code))     [] name = "GASPRICE" -> Pad32(X.env.gasprice)
    [] name = "RETURNDATASIZE" -> FromNat(Len(s.ret))
    [] name = "COINBASE" -> Pad32(X.env.coinbase)    [] name = "TIMESTAMP" -> Pad32(X.env.timestamp)
    [] name = "NUMBER" -> Pad32(X.env.number)        [] name = "PREVRANDAO" -> Pad32(X.env.prevrandao)
    [] name = "GASLIMIT" -> Pad32(X.env.gaslimit)    [] name = "CHAINID" -> Pad32(X.env.chainid)
    [] name = "SELFBALANCE" -> BalOf(s, Self(X))     [] name = "BASEFEE" -> Pad32(X.env.basefee)
    [] name = "BLOBBASEFEE" -> Pad32(X.env.blobbasefee)
    [] name = "PC" -> FromNat(s.pc)                  [] name = "MSIZE" -> FromNat(s.msz)
    [] name = "GAS" -> GWord(s.gas)                  [] name = "PUSH0" -> Zero

\* --- nested calls ------------------------------------------------------------------------
NoResult == [st |-> 0, gas |-> GZero, ref |-> 0, out |-> << >>, addr |-> << >>, writes |-> << >>]
Scripted(X, s) == IF s.ncalls < Len(X.calls) THEN X.calls[s.ncalls + 1] ELSE NoResult
\* Writes to the storage of the running account done by a successful nested call.
Written(s, writes) == FoldLeft(LAMBDA f, e : Put(f, Pad32(e.k), [o |-> IF Pad32(e.k) \in DOMAIN f THEN f[Pad32(e.k)].o ELSE Zero,
                                                                c |-> Pad32(e.v)]), s.stor, writes)
WrittenKeys(writes) == {Pad32(writes[i].k) : i \in 1..Len(writes)}
Moved(s, from, to, v) ==
  IF IsZero(v) THEN s
  ELSE LET b1 == Put(s.bal, from, Sub(BalOf(s, from), v))
           b2 == Put(b1, to, Add(IF to \in DOMAIN b1 THEN b1[to] ELSE Zero, v))
       IN [s EXCEPT !.bal = b2, !.ex = @ \cup {to}]
\* Issue message m with gas mg; gas is what the frame has before handing over mg.
\* Returns the state with the result integrated except for stack and memory.
Issue(X, s, m, mg) ==
  LET r == Scripted(X, s)
      left == IF r.st = 2 THEN GZero ELSE GMin(r.gas, mg)
      s1 == [s EXCEPT !.ncalls = @ + 1, !.gas = GAddG(GSubG(@, mg), left), !.ref = @ + r.ref,
                      !.eff = Append(@, m)]
  IN IF r.st # 0 THEN s1
     ELSE [s1 EXCEPT !.stor = Written(s1, r.writes), !.ws = @ \cup WrittenKeys(r.writes)]
Output(X, s) == LET r == Scripted(X, s) IN IF r.st = 2 THEN << >> ELSE r.out

Message(X, kind, static, gas, rcpt, sender, codeaddr, value, input, salt) ==
  [t |-> "call", kind |-> kind, static |-> static, depth |-> X.depth + 1, gas |-> gas, rcpt |-> rcpt,
   sender |-> sender, codeaddr |-> codeaddr, value |-> value, input |-> input, salt |-> salt]

DoCall(X, s, name) ==
  LET nops == IF name \in {"CALL", "CALLCODE"} THEN 7 ELSE 6
      b == nops - 7                                    \* shift of the operands behind the value
      value == IF nops = 7 THEN S(s, 2) ELSE Zero
      to == AddrOf(S(s, 1))
      input == SliceW(s.mem, S(s, 3 + b), ToNat(S(s, 4 + b)))
      osize == ToNat(S(s, 6 + b))
      want == GMin(WordG(S(s, 0)), AllBut64th(s.gas))
      stipend == IF IsZero(value) THEN 0 ELSE 2300
      mg == GAddN(want, stipend)
      s0 == [s EXCEPT !.gas = GAddN(@, stipend), !.ret = << >>]
      m == Message(X, CASE name = "CALL" -> "call" [] name = "STATICCALL" -> "call" [] name = "CALLCODE" -> "callcode"
                        [] name = "DELEGATECALL" -> "delegatecall",
                   X.static \/ name = "STATICCALL", mg,
                   IF name \in {"CALL", "STATICCALL"} THEN to ELSE Self(X),
                   IF name = "DELEGATECALL" THEN Pad32(X.env.sender) ELSE Self(X),
                   to, IF name = "DELEGATECALL" THEN Pad32(X.env.value) ELSE value, input, Zero)
  IN IF ~IsZero(value) /\ Lt(BalOf(s, Self(X)), value) THEN Res(s0, nops, <<Zero>>)
     ELSE LET r == Scripted(X, s0)
              s1 == Issue(X, s0, m, mg)
              s2 == IF name = "CALL" /\ r.st = 0 THEN Moved(s1, Self(X), to, value) ELSE s1
              out == Output(X, s0)
              n == Min2(osize, Len(out))
          IN Res([s2 EXCEPT !.ret = out,
                            !.mem = IF n = 0 THEN @ ELSE MemWrite(@, ToNat(S(s, 5 + b)), SubSeq(out, 1, n))],
                 nops, <<FromBool(r.st = 0)>>)

DoCreate(X, s, name) ==
  LET nops == IF name = "CREATE" THEN 3 ELSE 4
      value == S(s, 0)
      init == SliceW(s.mem, S(s, 1), ToNat(S(s, 2)))
      salt == IF name = "CREATE2" THEN S(s, 3) ELSE Zero
      mg == AllBut64th(s.gas)
      s0 == [s EXCEPT !.ret = << >>]
      m == Message(X, IF name = "CREATE" THEN "create" ELSE "create2", FALSE, mg, Zero, Self(X), Zero, value, init, salt)
  IN IF ~IsZero(value) /\ Lt(BalOf(s, Self(X)), value) THEN Res(s0, nops, <<Zero>>)
     ELSE LET r == Scripted(X, s0)
              s1 == Issue(X, s0, m, mg)
              s2 == IF r.st = 0 /\ ~IsZero(value)
                    THEN [s1 EXCEPT !.bal = Put(@, Self(X), Sub(BalOf(s, Self(X)), value))] ELSE s1
          IN Res([s2 EXCEPT !.ret = IF r.st = 1 THEN r.out ELSE << >>], nops,
                 <<IF r.st = 0 THEN Pad32(r.addr) ELSE Zero>>)

\* --- the effect of an instruction that does not fail; gas is already charged ----------------
Apply(X, s, op, name) ==
  CASE name = "STOP" -> [s EXCEPT !.status = "stop"]
    [] name \in {"ISZERO", "NOT"} -> Res(s, 1, <<Unary(name, S(s, 0))>>)
    [] name \in BinaryOps -> Res(s, 2, <<Binary(name, S(s, 0), S(s, 1))>>)
    [] name = "ADDMOD" -> Res(s, 3, <<AddMod(S(s, 0), S(s, 1), S(s, 2))>>)
    [] name = "MULMOD" -> Res(s, 3, <<MulMod(S(s, 0), S(s, 1), S(s, 2))>>)
    [] name \in ContextOps -> Res(s, 0, <<Context(X, s, name)>>)
    [] IsPush(op) -> LET n == op - 95
                     IN [s EXCEPT !.stack = Append(@, E(Pad32(Slice(X.code, s.pc + 1, n)))), !.pc = @ + n + 1]
    [] op >= 128 /\ op <= 143 -> Res(s, 0, <<S(s, op - 128)>>)
    [] op >= 144 /\ op <= 159 ->
         LET n == Len(s.stack)  j == n - (op - 143)
         IN [s EXCEPT !.stack = [@ EXCEPT ![n] = s.stack[j], ![j] = s.stack[n]], !.pc = @ + 1]
    [] name = "POP" -> Res(s, 1, << >>)
    [] name = "JUMPDEST" -> Res(s, 0, << >>)
    [] name = "JUMP" -> [s EXCEPT !.stack = Drop(s, 1), !.pc = ToNat(S(s, 0))]
    [] name = "JUMPI" -> [s EXCEPT !.stack = Drop(s, 2), !.pc = IF IsZero(S(s, 1)) THEN @ + 1 ELSE ToNat(S(s, 0))]
    [] name = "SHA3" -> Res(s, 2, <<K!Keccak256(SliceW(s.mem, S(s, 0), ToNat(S(s, 1))))>>)
    [] name = "BALANCE" -> Res(s, 1, <<BalOf(s, AddrOf(S(s, 0)))>>)
    [] name = "EXTCODESIZE" -> Res(s, 1, <<FromNat(Len(CodeOf(X, AddrOf(S(s, 0)))))>>)
    [] name = "EXTCODEHASH" -> Res(s, 1, <<HashOf(X, AddrOf(S(s, 0)))>>)
    [] name = "EXTCODECOPY" ->
         Res([s EXCEPT !.mem = MemWrite(@, ToNat(S(s, 1)), SliceW(CodeOf(X, AddrOf(S(s, 0))), S(s, 2), ToNat(S(s, 3))))], 4, << >>)
    [] name = "CALLDATALOAD" -> Res(s, 1, <<SliceW(X.input, S(s, 0), 32)>>)
    [] name = "CALLDATACOPY" -> Res([s EXCEPT !.mem = MemWrite(@, ToNat(S(s, 0)), SliceW(X.input, S(s, 1), ToNat(S(s, 2))))], 3, << >>)
    [] name = "CODECOPY" -> Res([s EXCEPT !.mem = MemWrite(@, ToNat(S(s, 0)), SliceW(X.code, S(s, 1), ToNat(S(s, 2))))], 3, << >>)
    [] name = "RETURNDATACOPY" -> Res([s EXCEPT !.mem = MemWrite(@, ToNat(S(s, 0)), SliceW(s.ret, S(s, 1), ToNat(S(s, 2))))], 3, << >>)
    [] name = "BLOCKHASH" ->
         LET n == Pad32(X.env.number)  w == S(s, 0)
         IN Res(s, 1, <<IF Lt(w, n) /\ Le(Sub(n, w), FromNat(256)) THEN BlockHash(w) ELSE Zero>>)
    [] name = "BLOBHASH" -> LET i == ToNat(S(s, 0)) IN Res(s, 1, <<IF i < Len(X.blobs) THEN Pad32(X.blobs[i + 1]) ELSE Zero>>)
    [] name = "MLOAD" -> Res(s, 1, <<SliceW(s.mem, S(s, 0), 32)>>)
    [] name = "MSTORE" -> Res([s EXCEPT !.mem = MemWrite(@, ToNat(S(s, 0)), S(s, 1))], 2, << >>)
    [] name = "MSTORE8" -> Res([s EXCEPT !.mem = MemWrite(@, ToNat(S(s, 0)), <<S(s, 1)[32]>>)], 2, << >>)
    [] name = "MCOPY" -> Res([s EXCEPT !.mem = MemWrite(@, ToNat(S(s, 0)), SliceW(s.mem, S(s, 1), ToNat(S(s, 2))))], 3, << >>)
    [] name = "SLOAD" -> Res([s EXCEPT !.ws = IF X.rev >= Berlin THEN @ \cup {S(s, 0)} ELSE @], 1, <<SlotOf(s, S(s, 0)).c>>)
    [] name = "SSTORE" ->
         LET k == S(s, 0)  v == S(s, 1)  e == SlotOf(s, k)
         IN Res([s EXCEPT !.stor = Put(@, k, [o |-> e.o, c |-> v]), !.ref = @ + StoreRefund(X, e, v),
                          !.ws = IF X.rev >= Berlin THEN @ \cup {k} ELSE @,
                          !.eff = Append(@, [t |-> "sstore", k |-> k, v |-> v])], 2, << >>)
    [] name = "TLOAD" -> Res(s, 1, <<TransOf(s, S(s, 0))>>)
    [] name = "TSTORE" -> Res([s EXCEPT !.trans = Put(@, S(s, 0), S(s, 1)),
                                        !.eff = Append(@, [t |-> "tstore", k |-> S(s, 0), v |-> S(s, 1)])], 2, << >>)
    [] name \in LogOps ->
         LET n == op - 160
         IN Res(Eff(s, [t |-> "log", data |-> SliceW(s.mem, S(s, 0), ToNat(S(s, 1))),
                        topics |-> E([i \in 1..n |-> S(s, 1 + i)])]), n + 2, << >>)
    [] name \in {"RETURN", "REVERT"} ->
         [s EXCEPT !.status = IF name = "RETURN" THEN "ret" ELSE "rev", !.stack = Drop(s, 2),
                   !.out = SliceW(s.mem, S(s, 0), ToNat(S(s, 1)))]
    [] name = "SELFDESTRUCT" ->
         LET to == AddrOf(S(s, 0))
         IN [Eff(s, [t |-> "sd", to |-> to]) EXCEPT
               !.status = "stop", !.stack = Drop(s, 1), !.ref = @ + (IF X.rev < London /\ ~X.destructed THEN 24000 ELSE 0)]
    [] name \in CallOps -> DoCall(X, s, name)
    [] name \in CreateOps -> DoCreate(X, s, name)

OpAt(X, s) == IF s.pc < Len(X.code) THEN X.code[s.pc + 1] ELSE 0
NameAt(X, s) == Info[OpAt(X, s)].name

Exec(X, s) ==
  LET op == OpAt(X, s)
      I == Info[op]
      n == Len(s.stack)
      pre == (IF X.static /\ I.name \in WriteOps THEN {"static"} ELSE {})
             \cup (IF n < I.pop THEN {"underflow"} ELSE {})
             \cup (IF n - I.pop + I.push > MaxStack THEN {"overflow"} ELSE {})
  IN IF ~I.used \/ X.rev < I.since \/ I.name = "INVALID" THEN Fail(s, {"undefined"})
     ELSE IF n < I.pop THEN Fail(s, pre \cup (IF GCovers(s.gas, I.gas) THEN {} ELSE {"oog"}))
     ELSE LET d == DynCost(X, s, I.name)
              cost == IF d = Inf THEN Inf ELSE d + I.gas
              why == pre \cup DynWhy(X, s, I.name) \cup (IF GCovers(s.gas, cost) THEN {} ELSE {"oog"})
          IN IF why # {} THEN Fail(s, why)
             ELSE LET size == NewSize(I.name, s)
                      s1 == [s EXCEPT !.gas = GSub(@, cost), !.msz = size,
                                      !.wa = IF X.rev >= Berlin /\ I.name \in AccountOps
                                             THEN @ \cup {AccountOperand(I.name, s)} ELSE @]
                  IN Apply(X, s1, op, I.name)

\* Up to n instructions.
RECURSIVE ExecN(_, _, _)
ExecN(X, s, n) == IF n = 0 \/ s.status # "run" THEN s ELSE ExecN(X, TLCEval(Exec(X, s)), n - 1)

(***************************************************************************)
(* What every state and every step satisfies.                              *)
(***************************************************************************)
StateOK(X, s) ==
  /\ s.status \in {"run", "stop", "ret", "rev", "fail"}
  /\ (s.status = "fail") = (s.why # {})
  /\ Len(s.stack) <= MaxStack
  /\ \A i \in 1..Len(s.stack) : Len(s.stack[i]) = 32
  /\ s.msz % 32 = 0 /\ Len(s.mem) <= s.msz
  /\ s.gas[1] \in 0..7 /\ s.gas[2] >= 0 /\ s.gas[2] < GBase /\ s.gas[3] >= 0 /\ s.gas[3] < GBase
  /\ ~GLess(X.gas, s.gas)
  /\ s.status = "fail" => s.gas = GZero /\ s.out = << >>
  /\ s.status \in {"run", "stop"} => s.out = << >>
  /\ X.rev < Berlin => s.wa = SetOf(X.wa)
StepOK(X, s, t) ==
  \* sizes and warm sets only grow; gas shrinks except for the stipend of a call with value
  /\ s.msz <= t.msz /\ s.wa \subseteq t.wa /\ s.ws \subseteq t.ws
  /\ (t.status = "run" /\ NameAt(X, s) \notin {"CALL", "CALLCODE"}) => GLess(t.gas, s.gas)
  \* read-only frames leave the world alone
  /\ X.static => /\ t.trans = s.trans /\ t.bal = s.bal
                 /\ \A i \in 1..Len(t.eff) : t.eff[i].t = "call" /\ t.eff[i].static /\ t.eff[i].kind \notin {"create", "create2"}
==============================================================================
