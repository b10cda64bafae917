------------------------------- MODULE OpTable -------------------------------
(***************************************************************************)
(* Decides the opcode tables of the C++ and Go code: each line of the file *)
(* is what the code says about one byte value.                             *)
(***************************************************************************)
EXTENDS Instr, Json, IOUtils, SequencesExt
Rows == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE row
Init == row = 0
Next == row < Len(Rows) /\ row' = row + 1
Cur == Rows[row]

Bad(what, want) == PrintT(ToString(<<"BAD", row, what, want, Cur>>))
Expect(f, want) == f \notin DOMAIN Cur \/ Cur[f] = want \/ Bad(f, want)

UsedOps == {v \in 0..255 : Info[v].used}
\* The number of a byte value as two upper-case hexadecimal digits.
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Hex2(v) == Hex[v \div 16 + 1] \o Hex[v - 16 * (v \div 16) + 1]

CppRow(v) ==
  /\ Expect("name", IF Info[v].used THEN Info[v].name ELSE "UNKNOWN")
  /\ Expect("used", Info[v].used)
  /\ Expect("call", Info[v].used /\ Info[v].name \in CallLike)
  /\ Expect("ext", Info[v].used /\ Info[v].name \in External)
CppConst ==
  /\ Expect("num_used", Cardinality(UsedOps)) /\ Expect("num_unused", 256 - Cardinality(UsedOps)) /\ Expect("num_all", 256)
\* An enumerator with its value.
EnumRow == (Cur.value \in UsedOps /\ Info[Cur.value].name = Cur.enum) \/ Bad("enum", Cur.enum)

GoRow(v) ==
  /\ Expect("name", IF Info[v].used THEN Info[v].name ELSE "op(0x" \o Hex2(v) \o ")")
  \* INVALID is the designated invalid instruction.
  /\ Expect("valid", Info[v].used /\ Info[v].name # "INVALID")
  /\ Expect("width", Width(v))
NoPush == SelectSeq(TLCEval([k \in 1..256 |-> k - 1]), LAMBDA v : Info[v].used /\ Info[v].name # "INVALID" /\ ~(v >= 95 /\ v <= 127))

Agrees == row = 0 \/
  CASE Cur.kind = "cpp" -> CppRow(Cur.op)
    [] Cur.kind = "const" -> CppConst
    [] Cur.kind = "enum" -> EnumRow
    [] Cur.kind = "go" -> GoRow(Cur.op)
    [] Cur.kind = "nopush" -> Expect("ops", NoPush)
    [] OTHER -> FALSE
=============================================================================
