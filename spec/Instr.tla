-------------------------------- MODULE Instr --------------------------------
(***************************************************************************)
(* The EVM instruction set: for every assigned byte value its name, the    *)
(* revision that introduced it, the words it takes from and leaves on the  *)
(* stack, and the part of its gas cost that depends on nothing.            *)
(*                                                                         *)
(* Revisions: 0 Istanbul, 1 Berlin, 2 London, 3 Paris, 4 Shanghai,         *)
(* 5 Cancun.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Istanbul == 0  Berlin == 1  London == 2  Paris == 3  Shanghai == 4  Cancun == 5
Revisions == 0..5

\* <<value, name, since, pops, pushes, gas>>
Basic == <<
  <<0, "STOP", 0, 0, 0, 0>>, <<1, "ADD", 0, 2, 1, 3>>, <<2, "MUL", 0, 2, 1, 5>>, <<3, "SUB", 0, 2, 1, 3>>,
  <<4, "DIV", 0, 2, 1, 5>>, <<5, "SDIV", 0, 2, 1, 5>>, <<6, "MOD", 0, 2, 1, 5>>, <<7, "SMOD", 0, 2, 1, 5>>,
  <<8, "ADDMOD", 0, 3, 1, 8>>, <<9, "MULMOD", 0, 3, 1, 8>>, <<10, "EXP", 0, 2, 1, 10>>, <<11, "SIGNEXTEND", 0, 2, 1, 5>>,
  <<16, "LT", 0, 2, 1, 3>>, <<17, "GT", 0, 2, 1, 3>>, <<18, "SLT", 0, 2, 1, 3>>, <<19, "SGT", 0, 2, 1, 3>>,
  <<20, "EQ", 0, 2, 1, 3>>, <<21, "ISZERO", 0, 1, 1, 3>>, <<22, "AND", 0, 2, 1, 3>>, <<23, "OR", 0, 2, 1, 3>>,
  <<24, "XOR", 0, 2, 1, 3>>, <<25, "NOT", 0, 1, 1, 3>>, <<26, "BYTE", 0, 2, 1, 3>>, <<27, "SHL", 0, 2, 1, 3>>,
  <<28, "SHR", 0, 2, 1, 3>>, <<29, "SAR", 0, 2, 1, 3>>, <<32, "SHA3", 0, 2, 1, 30>>,
  <<48, "ADDRESS", 0, 0, 1, 2>>, <<49, "BALANCE", 0, 1, 1, 0>>, <<50, "ORIGIN", 0, 0, 1, 2>>, <<51, "CALLER", 0, 0, 1, 2>>,
  <<52, "CALLVALUE", 0, 0, 1, 2>>, <<53, "CALLDATALOAD", 0, 1, 1, 3>>, <<54, "CALLDATASIZE", 0, 0, 1, 2>>,
  <<55, "CALLDATACOPY", 0, 3, 0, 3>>, <<56, "CODESIZE", 0, 0, 1, 2>>, <<57, "CODECOPY", 0, 3, 0, 3>>, <<58, "GASPRICE", 0, 0, 1, 2>>,
  <<59, "EXTCODESIZE", 0, 1, 1, 0>>, <<60, "EXTCODECOPY", 0, 4, 0, 0>>, <<61, "RETURNDATASIZE", 0, 0, 1, 2>>,
  <<62, "RETURNDATACOPY", 0, 3, 0, 3>>, <<63, "EXTCODEHASH", 0, 1, 1, 0>>, <<64, "BLOCKHASH", 0, 1, 1, 20>>,
  <<65, "COINBASE", 0, 0, 1, 2>>, <<66, "TIMESTAMP", 0, 0, 1, 2>>, <<67, "NUMBER", 0, 0, 1, 2>>, <<68, "PREVRANDAO", 0, 0, 1, 2>>,
  <<69, "GASLIMIT", 0, 0, 1, 2>>, <<70, "CHAINID", 0, 0, 1, 2>>, <<71, "SELFBALANCE", 0, 0, 1, 5>>, <<72, "BASEFEE", 2, 0, 1, 2>>,
  <<73, "BLOBHASH", 5, 1, 1, 3>>, <<74, "BLOBBASEFEE", 5, 0, 1, 2>>,
  <<80, "POP", 0, 1, 0, 2>>, <<81, "MLOAD", 0, 1, 1, 3>>, <<82, "MSTORE", 0, 2, 0, 3>>, <<83, "MSTORE8", 0, 2, 0, 3>>,
  <<84, "SLOAD", 0, 1, 1, 0>>, <<85, "SSTORE", 0, 2, 0, 0>>, <<86, "JUMP", 0, 1, 0, 8>>, <<87, "JUMPI", 0, 2, 0, 10>>,
  <<88, "PC", 0, 0, 1, 2>>, <<89, "MSIZE", 0, 0, 1, 2>>, <<90, "GAS", 0, 0, 1, 2>>, <<91, "JUMPDEST", 0, 0, 0, 1>>,
  <<92, "TLOAD", 5, 1, 1, 100>>, <<93, "TSTORE", 5, 2, 0, 100>>, <<94, "MCOPY", 5, 3, 0, 3>>, <<95, "PUSH0", 4, 0, 1, 2>>,
  <<240, "CREATE", 0, 3, 1, 32000>>, <<241, "CALL", 0, 7, 1, 0>>, <<242, "CALLCODE", 0, 7, 1, 0>>, <<243, "RETURN", 0, 2, 0, 0>>,
  <<244, "DELEGATECALL", 0, 6, 1, 0>>, <<245, "CREATE2", 0, 4, 1, 32000>>, <<250, "STATICCALL", 0, 6, 1, 0>>,
  <<253, "REVERT", 0, 2, 0, 0>>, <<254, "INVALID", 0, 0, 0, 0>>, <<255, "SELFDESTRUCT", 0, 1, 0, 5000>> >>

Digits == <<"1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21", "22",
            "23", "24", "25", "26", "27", "28", "29", "30", "31", "32">>
Pushes == [i \in 1..32 |-> <<95 + i, "PUSH" \o Digits[i], 0, 0, 1, 3>>]
Dups   == [i \in 1..16 |-> <<127 + i, "DUP" \o Digits[i], 0, i, i + 1, 3>>]
Swaps  == [i \in 1..16 |-> <<143 + i, "SWAP" \o Digits[i], 0, i + 1, i + 1, 3>>]
Logs   == [i \in 1..5 |-> <<159 + i, IF i = 1 THEN "LOG0" ELSE "LOG" \o Digits[i - 1], 0, i + 1, 0, 375 * i>>]
Table  == Basic \o Pushes \o Dups \o Swaps \o Logs

Unused == [name |-> "", since |-> 99, pop |-> 0, push |-> 0, gas |-> 0, used |-> FALSE]
Info == TLCEval([v \in 0..255 |->
          IF \E i \in 1..Len(Table) : Table[i][1] = v
          THEN LET row == Table[CHOOSE i \in 1..Len(Table) : Table[i][1] = v]
               IN [name |-> row[2], since |-> row[3], pop |-> row[4], push |-> row[5], gas |-> row[6], used |-> TRUE]
          ELSE Unused])

Names == {Table[i][2] : i \in 1..Len(Table)}
Op(name) == Table[CHOOSE i \in 1..Len(Table) : Table[i][2] = name][1]

\* Instructions that create contracts or call accounts.
CallLike == {"CREATE", "CREATE2", "CALL", "CALLCODE", "DELEGATECALL", "STATICCALL"}
\* Instructions other than those that query or change the world outside of the
\* running message: accounts, storage, logs, the transaction and the block.
External == {"BALANCE", "ORIGIN", "GASPRICE", "EXTCODESIZE", "EXTCODECOPY", "EXTCODEHASH", "BLOCKHASH", "COINBASE",
             "TIMESTAMP", "NUMBER", "PREVRANDAO", "GASLIMIT", "CHAINID", "SELFBALANCE", "BASEFEE", "BLOBHASH", "BLOBBASEFEE",
             "SLOAD", "SSTORE", "TLOAD", "TSTORE", "LOG0", "LOG1", "LOG2", "LOG3", "LOG4", "SELFDESTRUCT"}

IsPush(v) == v >= 96 /\ v <= 127
\* Number of bytes an instruction occupies in the code.
Width(v) == IF IsPush(v) THEN v - 94 ELSE 1

ASSUME Cardinality(Names) = Len(Table)
ASSUME Cardinality({Table[i][1] : i \in 1..Len(Table)}) = Len(Table)
ASSUME CallLike \subseteq Names /\ External \subseteq Names

(***************************************************************************)
(* Jump destinations of a code (a sequence of bytes): scanning from the    *)
(* start, the bytes of a push instruction's operand are skipped.           *)
(***************************************************************************)
\* One byte of the scan: skip = operand bytes still to come.
ScanByte(skip, b) == IF skip > 0 THEN skip - 1 ELSE IF IsPush(b) THEN b - 95 ELSE 0
IsDest(skip, b) == skip = 0 /\ b = 91
=============================================================================
