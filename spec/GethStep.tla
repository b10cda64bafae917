------------------------------- MODULE GethStep -------------------------------
(***************************************************************************)
(* Executions of geth's interpreter on states of the conformance tool      *)
(* (go/interpreter/geth).  An instruction is a list of actions on what the *)
(* interpreter was given: its registers, and the state behind it.  Actions *)
(* act on the state of CtState directly; geth's own representation and the *)
(* conversions to it and back must not be noticed.                         *)
(***************************************************************************)
EXTENDS CtState
\* all words that are compared, in increasing order
RECURSIVE Repeated(_, _)
Repeated(d, n) == IF n = 0 THEN "" ELSE d \o Repeated(d, n - 1)
Words == TLCEval(<<"0", "1", "2", "7", "ff", Repeated("f", 16), "1" \o Repeated("0", 16), "1" \o Repeated("0", 32), "1" \o Repeated("0", 48), "8" \o Repeated("0", 63), Repeated("f", 64)>>)
Index(w) == CHOOSE i \in 1..Len(Words) : Words[i] = w
Greater(v, w) == Index(v) > Index(w)

\* numbers in decimal representation, as far as they are computed with
Window == -30..400
Decimals == TLCEval([i \in Window |-> ToString(i)])
Numbers == TLCEval([d \in {Decimals[i] : i \in Window} |-> CHOOSE i \in Window : Decimals[i] = d])
Plus(d, n) == IF n = 0 THEN d ELSE Decimals[Numbers[d] + n]

WordsOf(n) == (n + 31) \div 32
MemoryCost(w) == (3 * w) + ((w * w) \div 512)
Paris == 3

\* the context an interpreter is told
Env(s) == [p \in (BlockParts \ {"randao"}) \cup {"revision", "origin", "blobs", "readonly", "calldata", "gas", "self", "caller", "value", "code"} |-> s[p]]
          @@ [randao |-> IF s.revision >= Paris THEN s.randao ELSE "none", difficulty |-> s.randao, contractdata |-> s.calldata]
Balance(s, a) == Account(s, a)[2]

\* a nested call goes to the journal, unless the funds are missing
Nested(s, m) ==
  LET kind == m[2]
      pays == kind \in {"call", "call_code", "create", "create2"}
      create == kind \in {"create", "create2"}
      to == IF kind = "call_code" THEN s.self ELSE IF kind = "delegate_call" THEN s.self ELSE IF create THEN "0" ELSE m[3]
      call == <<IF kind = "call" /\ s.readonly THEN "static_call" ELSE kind, to, IF kind = "delegate_call" THEN s.caller ELSE s.self, m[4],
                IF kind = "delegate_call" THEN s.value ELSE IF kind = "static_call" THEN "0" ELSE m[5], m[6], IF create THEN "0" ELSE m[3]>>
      r == Called(s, call)
  IN IF pays /\ Greater(m[5], Balance(s, s.self)) THEN <<s, <<"funds", << >>, m[6], "0">>>>
     ELSE <<[r[1] EXCEPT !.refund = Plus(@, r[2][4])], <<IF r[2][1] = "yes" THEN "ok" ELSE "reverted", r[2][2], r[2][3], IF create THEN r[2][5] ELSE "0">>>>

\* the effect of an action, and what it returns
Micro(s, m) ==
  CASE m[1] = "push" -> <<[s EXCEPT !.stack = Append(@, m[2])], None>>
    [] m[1] = "pop" -> <<[s EXCEPT !.stack = Front(@)], Last(s.stack)>>
    [] m[1] = "grow" -> <<[s EXCEPT !.memory = Grown(@, 0, 32 * WordsOf(m[2]))], IF 32 * WordsOf(m[2]) > Len(s.memory) THEN MemoryCost(WordsOf(m[2])) - MemoryCost(WordsOf(Len(s.memory))) ELSE 0>>
    [] m[1] = "write" -> <<[s EXCEPT !.memory = Written(@, m[2], m[3])], None>>
    [] m[1] = "pc" -> <<[s EXCEPT !.pc = m[2]], None>>
    [] m[1] = "gas" -> <<[s EXCEPT !.gas = m[2]], None>>
    [] m[1] = "last" -> <<[s EXCEPT !.lastret = m[2]], None>>
    [] m[1] = "ret" -> <<[s EXCEPT !.ret = m[2]], None>>
    [] m[1] = "status" -> <<[s EXCEPT !.status = m[2]], None>>
    [] m[1] = "interpreter" -> <<s, [p \in {"pc", "stack", "memory", "lastret"} |-> s[p]]>>
    [] m[1] = "env" -> <<s, Env(s)>>
    [] m[1] = "load" -> <<s, Get(s.cur, m[2])>>
    [] m[1] = "committed" -> <<s, Get(s.orig, m[2])>>
    [] m[1] = "store" -> <<[s EXCEPT !.cur = Put(@, m[2], m[3])], None>>
    [] m[1] = "tload" -> <<s, Get(s.trans, m[2])>>
    [] m[1] = "tstore" -> <<[s EXCEPT !.trans = Put(@, m[2], m[3])], None>>
    [] m[1] = "balance" -> <<s, Balance(s, m[2])>>
    [] m[1] = "size" -> <<s, Len(Account(s, m[2])[3])>>
    [] m[1] = "code" -> <<s, Account(s, m[2])[3]>>
    [] m[1] = "exist" -> <<s, Bool(Exists(s, m[2]))>>
    [] m[1] = "empty" -> <<s, Bool(Account(s, m[2]) = <<m[2], "0", << >>>>)>>
    [] m[1] = "log" -> <<[s EXCEPT !.logs = Append(@, <<m[2], m[3]>>)], None>>
    [] m[1] = "refund" -> LET r == Plus(s.refund, m[2]) IN <<[s EXCEPT !.refund = r], r>>
    [] m[1] = "inlist" -> <<s, Bool(m[2] \in s.awarm)>>
    [] m[1] = "slotinlist" -> <<s, Bool(m[2] \in s.warm)>>
    [] m[1] = "access" -> <<[s EXCEPT !.awarm = @ \cup {m[2]}], None>>
    [] m[1] = "slot" -> <<[s EXCEPT !.warm = @ \cup {m[2]}], None>>
    [] m[1] = "destruct" -> <<[s EXCEPT !.sdj = Append(@, <<s.self, m[2]>>), !.destructed = TRUE], None>>
    [] m[1] = "destructed" -> <<s, Bool(s.destructed)>>
    [] m[1] = "block" -> <<s, BlockHash(s, m[2])>>
    [] m[1] = "call" -> Nested(s, m)

\* the effect of a list of actions, and their results
Actions(s, ms) == FoldLeft(LAMBDA a, m : LET r == Micro(a[1], m) IN <<r[1], Append(a[2], r[2])>>, <<s, << >>>>, ms)

\* up to n instructions are executed, as long as the execution goes on; the results, and the number of instructions
RECURSIVE Instructions(_, _, _)
Instructions(a, n, script) ==
  IF a[3] = n \/ a[1].status # "running" THEN a
  ELSE LET r == Actions(a[1], IF a[3] < Len(script) THEN script[a[3] + 1] ELSE << >>) IN Instructions(<<r[1], a[2] \o r[2], a[3] + 1>>, n, script)
Supported(s) == s.revision <= 5
Step(s, n, script) ==
  IF ~Supported(s) THEN <<s, <<0, "unsupported", << >>>>>>
  ELSE LET r == Instructions(<<s, << >>, 0>>, n, script)
           t == IF r[1].status = "running" THEN r[1] ELSE [r[1] EXCEPT !.pc = s.pc]   \* ended executions have no position
       IN <<t, <<r[3], "none", r[2]>>>>

\* A whole execution: what it does to the world stays there; registers, gas and refunds are its own.
Own == {"gas", "refund", "status", "pc", "stack", "memory", "lastret", "ret"}
Run(s, ms, end, out) ==
  IF ~Supported(s) THEN <<s, <<0, "unsupported", "no", << >>, "0", "0", << >>>>>>
  ELSE LET r == Actions([s EXCEPT !.refund = "0"], ms)
           t == [p \in Parts |-> IF p \in Own THEN s[p] ELSE r[1][p]]
       IN <<t, CASE end = "stop" -> <<1, "none", "yes", out, r[1].gas, r[1].refund, r[2]>>
                 [] end = "revert" -> <<1, "none", "no", out, r[1].gas, r[1].refund, r[2]>>
                 [] end = "other" -> <<1, "error", "no", << >>, "0", "0", r[2]>>
                 [] OTHER -> <<1, "none", "no", << >>, "0", "0", r[2]>>>>

GApply(h, o) ==
  CASE o.op = "step" -> LET r == Step(h[o.h], o.a[1], o.a[2]) IN <<[h EXCEPT ![o.h] = r[1]], r[2]>>
    [] o.op = "run" -> LET r == Run(h[o.h], o.a[1], o.a[2], o.a[3]) IN <<[h EXCEPT ![o.h] = r[1]], r[2]>>
    [] OTHER -> Apply(h, o)
=============================================================================
