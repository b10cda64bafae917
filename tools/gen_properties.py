#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": mech, "where": files[0]}]}})

EZ = "cpp/vm/evmzero/"
INT = EZ + "interpreter.cc"

p("E01", "Word arithmetic, comparison and bit operations are exact",
  "For every pair or triple of 256-bit operands, each arithmetic, signed-arithmetic, modular, exponentiation, comparison, shift, byte, sign-extension and bitwise instruction leaves exactly the result the EVM defines on the stack and changes nothing else but gas and program counter. Division and remainder by zero yield zero, signed overflow wraps, shift amounts of 256 or more saturate.",
  ["inputs"], "all operand values and operand positions of every arithmetic/logic instruction",
  "Unit tests evaluate a few operand tuples per instruction; the guarantee is over 2^512 tuples with corner cases at sign, width and limb boundaries.",
  [INT, EZ + "uint256.h"], "instruction implementations of the interpreter and the 256-bit integer helpers")
p("E02", "Operand stack discipline is never violated",
  "An instruction executes only if the operand stack holds all operands it needs and has room for its results (limit 1024); otherwise the execution fails as a whole, without touching anything outside the stack. PUSH, DUP, SWAP and POP place exactly the specified words at the specified positions, and every other stack slot keeps its value.",
  ["inputs", "programs"], "all stack heights 0..1024, all instructions, all instruction sequences",
  "Tests check single heights per instruction; the boundary is per instruction and depends on the instructions executed before.",
  [INT, EZ + "stack.h", EZ + "stack.cc"], "stack requirement check per instruction, push/pop/dup/swap")
p("E03", "Memory reads, writes, copies and growth follow the EVM memory model",
  "Memory behaves as an unbounded zero-initialised byte array whose visible size is the smallest multiple of 32 covering every byte touched so far: reads return the last value written to each byte, writes and copies change exactly the addressed bytes (overlapping copies behave as if through a buffer), zero-length accesses touch nothing. The reported memory size never shrinks during an execution.",
  ["inputs", "programs"], "all sequences of memory accesses with arbitrary (also huge) offsets and sizes",
  "Tests check individual accesses; correctness depends on the history of accesses and on offset/size combinations near word and integer boundaries.",
  [INT, EZ + "memory.h", EZ + "memory.cc"], "memory access instructions and the memory container")
p("E04", "Every instruction charges exactly the gas its specification defines",
  "Gas left after each successfully executed instruction equals gas before minus the specified static and dynamic cost (memory expansion, copied words, exponent bytes, hashed words, log data and topics) for the active revision, and an instruction whose cost exceeds the remaining gas makes the whole execution fail. Gas never becomes negative and never increases except through gas handed back by a nested call.",
  ["inputs", "programs", "configurations"], "all programs, revisions and gas limits, including limits one unit around the exact cost",
  "Tests sample one gas limit per instruction; exactness must hold for all operand-dependent costs, all memory histories, and all limits.",
  [INT], "static gas table, dynamic gas computation, memory expansion cost")
p("E05", "Control flow reaches only valid jump destinations",
  "A jump succeeds only to a position of the code that holds a JUMPDEST instruction not inside push data, for any 256-bit destination value; all other jumps fail the execution. A conditional jump is taken exactly if its condition word is non-zero, running past the end of the code stops successfully, and push data missing at the end of the code reads as zero.",
  ["programs", "inputs"], "all byte strings as code, all jump destinations",
  "Tests use a handful of code strings; the guarantee quantifies over all byte strings and destinations beyond 64 bits.",
  [INT, EZ + "opcodes.cc"], "jump validation, code padding, push implementation")
p("E06", "Instructions are available exactly from the revision that introduced them",
  "An instruction introduced by a revision fails the execution on every older revision and is available on that and every newer revision; byte values assigned to no instruction always fail. Revision-dependent costs and limits (access costs, init-code limits and charges, refunds) switch exactly at the specified revision.",
  ["configurations", "programs"], "all 256 opcodes x all supported revisions",
  "Tests cover selected instruction/revision pairs.",
  [INT, EZ + "opcodes.inc", "go/interpreter/lfvm/interpreter.go"], "per-instruction introduction revision and revision-dependent branches")
p("E07", "Storage writes charge and refund exactly per original/current/new value",
  "For each storage write, gas charged and refund granted or revoked are exactly those defined for the combination of original, current and new value, slot temperature and revision, and the written value is what later reads in the same context return. The accumulated refund of an execution is the sum of these amounts plus refunds reported by nested calls, also when intermediate sums are negative.",
  ["histories", "inputs", "configurations"], "all sequences of reads and writes to slots of persistent and transient storage, all revisions",
  "The nine value transitions multiplied by temperature and revision, chained over several writes, are not enumerated by the tests.",
  [INT, "go/interpreter/lfvm/gas.go", "go/tosca/utils.go"], "storage gas and refund tables")
p("E08", "Warm and cold accesses are priced by the access history of the transaction",
  "From Berlin on, the first access to an account or storage slot in a transaction is charged the cold price and marks it warm, and all later accesses are charged the warm price, for every instruction that accesses accounts or slots; before Berlin no access list exists and flat prices apply.",
  ["histories", "configurations"], "all sequences of account and slot accesses by any instructions",
  "Depends on the access history across different instructions; tests look at single accesses.",
  [INT, "go/interpreter/lfvm/gas.go"], "access status queries and access cost constants")
p("E09", "Static execution never changes state",
  "In a read-only execution no storage write, transient storage write, log, contract creation, self-destruct or value-transferring call is ever performed, and any such instruction fails the execution. Read-only mode is inherited by every nested call.",
  ["programs", "configurations"], "all programs run in static mode, at any nesting depth",
  "Tests run single instructions in static mode; the guarantee is for every program and every nested message.",
  [INT, "go/interpreter/lfvm/instructions.go"], "static checks per instruction and flag inheritance of call messages")
p("E10", "Calls issue the right message and integrate the result exactly",
  "Each call instruction issues exactly one message with the specified kind, depth, sender, recipient, code address, value, input, static flag and gas (63/64 rule, stipend), or none when the balance forbids it, and afterwards pushes success, returns unused gas and refunds, makes the result available as return data and copies no more than the requested output size to memory. Costs charged for the call are exactly those of the active revision.",
  ["inputs", "histories", "configurations"], "all operand combinations of the four call instructions, all results of the nested call, all revisions",
  "Tests check a few operand combinations with scripted results; the interaction of memory ranges, gas cap, stipend and revision is combinatorial.",
  [INT, "go/interpreter/lfvm/instructions.go"], "call instruction implementation")
p("E11", "Contract creation issues the right message and integrates the result exactly",
  "Each creation instruction issues exactly one creation message with the specified kind, depth, sender, value, salt, init code and gas (all but one 64th), or pushes zero without issuing one when the balance forbids it; afterwards it pushes the created address or zero, returns unused gas and refunds, and exposes return data only if the creation reverted. Init code over the size limit fails from Shanghai on, and init code is charged per word as the revision defines.",
  ["inputs", "histories", "configurations"], "all operands of both creation instructions, all results, all revisions",
  "As for calls: combinatorial in operands, revision and result.",
  [INT, "go/interpreter/lfvm/instructions.go"], "creation instruction implementation")
p("E12", "Environment and data instructions report the true context",
  "Every instruction exposing the message, transaction, block, code, call data, return data or another account yields exactly the value of the execution context, reading zero bytes beyond the end of call data and code, failing on return-data reads beyond its end, and yielding zero for blocks outside the 256-block window or blob indices out of range. Logs carry exactly the addressed memory bytes and topics.",
  ["inputs", "configurations"], "all contexts, all offsets and sizes including values over 64 bits",
  "Tests sample offsets; overflow-prone boundary combinations are unbounded.",
  [INT, "go/interpreter/lfvm/instructions.go"], "context instructions")
p("E13", "An execution reports one consistent outcome",
  "Success and revert report the gas left and the output bytes selected by the terminating instruction; every other failure reports no gas and no output, and the reported status names a reason that holds. The reported outcome is a function of the code and context only, and no failing program is reported as successful or vice versa.",
  ["programs", "inputs"], "all programs and gas limits",
  "Tests check a few terminating instructions.",
  [INT, EZ + "evmzero.cc"], "status mapping at the interface of the virtual machine")
p("E14", "Stepwise execution is equivalent to uninterrupted execution",
  "Executing a program in any sequence of bounded step batches, each resumed from the state reported by the previous one, passes through the same states and ends in the same outcome, gas, output and effects as running it in one go. A batch executes exactly the requested number of instructions unless the program ends, and resuming an ended execution changes nothing.",
  ["programs", "schedules"], "all programs and all ways to cut their execution into step batches",
  "The tests never compare the two modes; conformance testing tools rely on the equivalence to transfer results from single steps to production executions.",
  [EZ + "evmzero.cc", INT], "step interface, state import/export")
p("E15", "Configuration and earlier executions never influence an execution",
  "The outcome of an execution does not depend on enabled caches, logging or profiling options, nor on which programs were executed before on the same instance, in particular not on cached code analyses or cached hashes. Executions of different codes or with absent code hash never share analysis results.",
  ["configurations", "histories"], "all option combinations, all sequences of executions on one instance",
  "Tests execute one program per instance and do not compare configurations.",
  [EZ + "evmzero.cc", EZ + "sha3_cache.h", EZ + "stack.cc", EZ + "profiler.h", EZ + "logger.h"], "analysis cache, hash cache, stack reuse, observers")
p("E16", "Concurrent executions on one instance are independent",
  "Any number of executions running concurrently on one virtual machine instance each produce exactly the outcome they would produce alone, free of data races, under every configuration of its caches and every interleaving.",
  ["schedules", "configurations"], "all interleavings of concurrent executions",
  "No test executes concurrently; interleavings are not reachable by unit tests.",
  [EZ + "stack.cc", EZ + "evmzero.cc", "cpp/common/lru_cache.h", EZ + "profiler.h"], "shared caches, shared free-list of stacks, thread-local profiles")
p("C01", "The LRU cache is an exact bounded least-recently-used map",
  "After every sequence of operations the cache holds at most its capacity of entries, each lookup returns the value most recently associated with the key or nothing, and when a new key exceeds the capacity exactly the entry whose last lookup or insertion is oldest is dropped while all others stay (assigning a new value to a present key is neither). Clearing leaves an empty, fully usable cache.",
  ["histories"], "all operation sequences, keys and capacities of at least two",
  "Tests execute a few fixed sequences; recency order depends on the full history.",
  ["cpp/common/lru_cache.h"], "recency list and index of the cache")
p("C02", "The LRU cache is linearizable under concurrency",
  "Concurrent lookups, insertions, combined lookup-or-insert operations and clears by any number of threads behave as if each executed atomically at some point between its start and end (lookup-or-insert as an atomic lookup followed by an atomic insertion), without data races, lost entries or values belonging to other keys.",
  ["schedules", "histories"], "all interleavings of all operations",
  "The existing tests are single-threaded.",
  ["cpp/common/lru_cache.h"], "locking of the cache")
p("C03", "Cached hashes equal freshly computed hashes",
  "Hashing through the cache yields for every input of every length, in every history of earlier inputs and under concurrency, the Keccak-256 hash of exactly that input.",
  ["inputs", "histories", "schedules"], "all input byte strings and histories, including more distinct inputs than the cache holds",
  "There is no unit test for the hash cache; eviction and key-construction errors need specific histories.",
  [EZ + "sha3_cache.h", "go/interpreter/lfvm/hash_cache.go"], "hash caches keyed by 32- and 64-byte inputs")
p("C04", "Byte-string hashing is a pure function of all key bytes",
  "The hash of a fixed-size byte key depends on the content of the key only (not on its address, alignment or surrounding memory), reads no byte outside the key, takes every byte of the key into account, and equals the documented combination of its 32-bit words and trailing bytes.",
  ["inputs"], "all key sizes and contents",
  "Only a benchmark exercises this code; no test.",
  ["cpp/common/hash_utils.h"], "hash combiner for fixed-size byte keys")
p("P01", "Profiles count every instruction exactly once",
  "For every execution, profiles report for each instruction exactly the number of times it was executed (a JUMPDEST reached by a jump counts as part of the jump), also across nested executions; merged profiles are the sum of their parts, resetting clears everything, and profiles restricted to external instructions report exactly those. Accumulated times are never negative and never exceed the time elapsed.",
  ["programs", "histories"], "all executions, all merge orders, all nesting depths",
  "Tests replay a few fixed tick sequences.",
  [EZ + "profiler.h", EZ + "evmzero.cc"], "per-thread profile collection and merging")
p("O01", "The C++ opcode table is complete, unique and correctly classified",
  "Every one of the 256 byte values is exactly one of: an instruction with the number and name the EVM assigns to it, or unused. The classification of instructions as call-like and as external, and the counts of used and unused values, agree with the instruction's defined role.",
  ["inputs"], "all 256 byte values and all classification functions",
  "No C++ test covers the table; a swapped or misclassified entry compiles and changes behaviour in several components at once.",
  [EZ + "opcodes.inc", EZ + "opcodes.h"], "macro table of instructions and functions generated from it")
p("J01", "Jump-target analysis marks exactly the reachable JUMPDEST bytes",
  "For every byte string, the analysis yields one flag per byte, set exactly for those JUMPDEST bytes which are not part of the immediate data of a preceding push instruction, and never reads or writes outside of the code.",
  ["inputs"], "all byte strings of all lengths, including truncated pushes at the end",
  "No test targets the analysis; errors appear only for particular overlaps of push data and JUMPDEST bytes.",
  [EZ + "opcodes.cc", "go/interpreter/lfvm/converter.go"], "linear scan over the code")
p("G01", "The Go opcode table agrees with the EVM instruction set",
  "For every byte value, the Go opcode table reports the name the EVM assigns to it, reports it as valid exactly if it is assigned to an instruction other than the designated INVALID, names unassigned values uniquely by their number, gives the number of code bytes the instruction occupies, and lists as valid non-push instructions exactly the valid values outside the push family, each once and in ascending order.",
  ["inputs"], "all 256 byte values",
  "Tests check consistency of the table with itself for a subset of properties, not with the instruction set.",
  ["go/tosca/vm/opcodes.go"], "opcode constants, names and validity")
p("G02", "The coverage bridge reports and dumps exactly when compiled for coverage",
  "The coverage library reports coverage as enabled exactly when it was compiled for coverage; requesting a dump in such a build writes the coverage data accumulated so far for all loaded libraries compiled alike; repeated requests are harmless, requests in other builds do nothing, and no request ends or disturbs the calling process.",
  ["configurations", "histories"], "both build configurations, any number and order of requests",
  "The single test performs one dump in one configuration.",
  ["cpp/common/coverage/collect_coverage.c", "go/lib/cpp/coverage.go"], "compile-time switch and dump function")
p("L01", "The long-form interpreter conforms to the EVM specification",
  "For every program, context, gas limit and revision, the long-form interpreter (the Go interpreter) yields the outcome, gas, refund, output and state effects the EVM specification defines, in every one of its configurations, and agrees with the C++ interpreter.",
  ["programs", "inputs", "configurations"], "all programs, contexts, revisions and interpreter configurations",
  "Conformance tests need infrastructure outside unit tests and sample programs.",
  ["go/interpreter/lfvm/interpreter.go", "go/interpreter/lfvm/instructions.go", "go/interpreter/lfvm/gas.go", "go/interpreter/lfvm/stack.go", "go/interpreter/lfvm/memory.go"], "interpreter loop and instruction implementations")
p("L02", "Code conversion and super-instructions preserve program meaning",
  "Converting code to the long format, with or without super-instructions, preserves the program: every valid jump destination and the program counter value reported at every position are those of the original code, no jump succeeds that the original forbids, and executing the converted code has the effects of the original.",
  ["programs", "configurations"], "all byte strings as code, both conversion modes",
  "Tests convert selected code snippets; super-instruction patterns may overlap jump destinations, push data and each other in arbitrary ways.",
  ["go/interpreter/lfvm/converter.go", "go/interpreter/lfvm/super_instructions.go"], "conversion with pattern fusion and jump padding")
p("L03", "Caches of the Go interpreter are transparent and thread-safe",
  "Conversion and hash caches of the Go interpreter never return a result that belongs to a different code or input, neither after evictions nor under concurrency, and stay within their capacity; the hash cache keeps exactly the most recently used entries.",
  ["histories", "schedules"], "all histories and interleavings of cache uses",
  "Tests use few entries and check races only for the race-free paths.",
  ["go/interpreter/lfvm/hash_cache.go", "go/interpreter/lfvm/converter.go"], "conversion cache and hash cache")
p("F01", "Transaction fees are charged and refunded exactly",
  "The gas limit times the gas price is taken from the sender before a transaction is executed, and what is left is paid back afterwards: gas used is the gas limit minus the gas left over, where a tenth of the gas left over is kept unless the sender is the zero address, minus, for a successful transaction, the refund, which is at most half (from London a fifth) of the gas used. The execution gets the gas limit minus the intrinsic gas (21000, or 53000 for a creation, 4 and 16 per zero and non-zero byte of data, 2400 and 1900 per address and slot of an access list); a transaction whose gas limit is less than that is charged its whole gas limit and has no further effect. No transaction reports more gas used than its limit or another amount than it paid for.",
  ["inputs", "histories"], "all transactions, world states and execution outcomes, for sums that fit into 256 bits",
  "Tests check selected amounts; the accounting must balance for all combinations of leftover, refund, limit and revision.",
  ["go/processor/floria/processor.go"], "gas purchase, refund computation and receipt")
p("F02", "Transactions are accepted exactly under the rules; rejected ones leave no trace",
  "A transaction is rejected if and only if its nonce is not the nonce of its sender, that nonce is 2^64-1, its sender has code, the sender's balance is less than gas limit times gas price (also where that exceeds 256 bits), or, from Shanghai, it is a creation with more than 49152 bytes of init code. A rejected transaction is not executed, uses no gas, and changes nothing. An accepted transaction is executed once, and increments the sender's nonce by one.",
  ["inputs", "histories"], "all transactions and world states",
  "Tests check each rejection in isolation with mocks that do not expose residual effects.",
  ["go/processor/floria/processor.go"], "acceptance checks before execution")
p("F03", "Value is conserved and failed calls roll back",
  "Calls and creations move exactly the transferred value from sender to recipient, and never create or destroy balance; they fail without effect and without executing anything if the sender's balance is insufficient, the recipient's balance would exceed 256 bits, or the depth limit of 1024 nested messages is reached. Every call or creation that does not succeed leaves balances, nonces, codes, storages and logs as they were when it began, except for the nonce of the creator; every one that succeeds keeps all its effects. Results of executions reach the caller unchanged.",
  ["programs", "histories"], "all call trees and outcomes of nested calls",
  "Tests mock single calls; rollback completeness depends on the tree of nested outcomes.",
  ["go/processor/floria/run_context.go"], "snapshots, transfers and nested message processing")
p("F04", "Contract creation obeys address, collision, nonce and deposit rules",
  "A creation increments the creator's nonce, also if it fails (but not where nonce, depth or, for creating transactions, acceptance forbid it), uses the address defined by creator and nonce or by creator, salt and init code, starts the new account with nonce one, and fails on a collision with an account that has a nonce or code. It stores exactly the returned code if that has at most 24576 bytes, does not begin with 0xEF from London on, and its deposit of 200 gas per byte can be paid; otherwise it fails, keeps no effect, and consumes all gas. A creation that reverts keeps its gas and returned data.",
  ["inputs", "histories", "configurations"], "all creations, nonces, existing accounts and init code results",
  "Tests cover selected cases with mocked contexts.",
  ["go/processor/floria/run_context.go"], "creation path of nested message processing")
p("F05", "The state contract changes the state only for the driver, and exactly as asked",
  "Calls to the state contract succeed only if sent by the driver contract, outside of read-only executions, with a known method, parameters of exactly the right length, and enough gas; otherwise they fail, consume all gas and change nothing. Successful calls set the balance, copy or swap codes, set a storage slot, or increase a nonce by 1 to 255 of exactly the given accounts, and cost exactly 9000, 32000, 64000, 20000 or 9000 gas plus 203 per byte of code (half of that for swapping). Balance and nonce of the driver and of the origin of the transaction cannot be changed this way.",
  ["inputs", "programs"], "all callers, kinds of calls, inputs, gas amounts and world states",
  "Tests call the methods directly with few inputs; who can reach them depends on kinds and nesting of calls.",
  ["go/processor/floria/state_contract.go", "go/processor/floria/run_context.go"], "state contract of the network")
p("F06", "Precompiled contracts are found, charged and rolled back like calls",
  "A message whose code is that of a precompiled contract of the active revision (9, from Cancun 10) is answered by that contract, for every kind of call and whatever account exists there: it costs exactly what the contract requires for the input, yields its output, and moves the value of the call; if the gas does not suffice or the contract fails, all gas is consumed and nothing is changed. No other address is taken for a precompiled contract.",
  ["inputs", "configurations"], "all addresses, revisions, kinds of calls, inputs and gas amounts",
  "Tests check one contract with mocks.",
  ["go/processor/floria/precompiled.go", "go/processor/floria/run_context.go"], "dispatch to precompiled contracts")
p("F07", "Access lists and creations warm exactly the specified accounts and slots",
  "From Berlin on, when the execution of a transaction with an access list begins, exactly its sender, its recipient, the precompiled contracts of the revision, and the accounts and slots in the list have been accessed; without an access list, or before Berlin, none. The address of a creation has been accessed when the creation begins, and remains so even if it fails. Nothing else is accessed by processing a transaction.",
  ["inputs", "histories"], "all transactions, access lists, revisions and trees of creations",
  "Tests count accesses of single transactions with mocks.",
  ["go/processor/floria/processor.go", "go/processor/floria/run_context.go"], "set-up of the access list, creation path")
p("F08", "Nested executions get exactly the context their kind of call defines",
  "Every message is executed with the code (and its hash) of the account its kind of call designates, on behalf of the right recipient and sender, with the given value, input and gas, the depth of its nesting, and read-only if it or any message it is nested in is a static call; block and transaction parameters are those of the transaction. Calls of accounts that do not exist succeed at once without executing anything. The state an execution sees is that of the world including all its own changes.",
  ["programs", "histories"], "all trees of calls of all kinds",
  "Tests check the parameters of single calls with mocks; propagation depends on the tree.",
  ["go/processor/floria/run_context.go"], "construction of the parameters of nested executions")
p("T01", "Amounts behave as 256-bit unsigned integers",
  "Amounts convert from and to integers and text without loss, adding and subtracting wrap modulo 2^256, scaling multiplies modulo 2^256, and comparison is numeric, for all values.",
  ["inputs"], "all 256-bit values",
  "Tests sample values.",
  ["go/tosca/types.go"], "big-endian byte array arithmetic")
p("T02", "Storage change classification and size helpers match their definition",
  "Every triple of original, current and new storage value is classified into exactly the storage status its equality pattern defines, and sizes are rounded up to words without overflow for all 64-bit sizes.",
  ["inputs"], "all value triples and sizes",
  "Tests enumerate some triples.",
  ["go/tosca/utils.go", "go/tosca/world_state.go"], "classification function")
p("T03", "Textual encodings round-trip and reject malformed input",
  "Addresses, amounts, call kinds and revisions decode from their own textual or JSON encoding to the same value, every text that is not a valid encoding is rejected without modifying the target, and keys, words and hashes print as the hexadecimal form of exactly their bytes.",
  ["inputs"], "all values and all texts",
  "Tests sample texts.",
  ["go/tosca/types.go", "go/tosca/revisions.go", "go/tosca/interpreter.go"], "text and JSON marshalling")
p("T04", "Values of the conformance tool behave as EVM words",
  "The 256-bit numbers of the conformance tool's model compute every arithmetic, comparison, bit, shift and sign operation as the EVM defines it (modulo 2^256, division by zero yields zero), convert from and to bytes without loss, and the mapping between revisions and block numbers or timestamps, and the padding of byte strings, agree in both directions.",
  ["inputs"], "all 256-bit operands",
  "Tests sample operands; the model of the conformance tool is the oracle for all interpreters, so its arithmetic must be right for all values.",
  ["go/ct/common/u256.go", "go/ct/common/bytes.go", "go/ct/common/revisions.go", "go/ct/common/slices.go"], "numbers and byte strings of the conformance tool")
p("R01", "Registries hold exactly what was registered",
  "Registering an implementation makes it retrievable under its name irrespective of letter case, a second registration of a taken name fails and changes nothing, lookups never modify the registry, and concurrent registrations and lookups are linearizable.",
  ["histories", "schedules"], "all sequences and interleavings of registrations and lookups",
  "Tests run a few sequential scenarios.",
  ["go/tosca/interpreter_registry.go", "go/tosca/processor_registry.go"], "global mutex-protected maps")
p("S01", "The executable conformance specification agrees with the EVM",
  "The rules of the conformance testing tool prescribe for every state exactly one effect, which is the effect the EVM defines for the next instruction in that state; no state is left without a rule and no two applicable rules disagree.",
  ["inputs", "programs"], "all states of the conformance tool's state space",
  "The tool's tests sample states per rule.",
  ["go/ct/spc/specification.go", "go/ct/spc/specification_map.go"], "rule set of the conformance tool")
p("S02", "Generated conformance states satisfy the constraints they were built from",
  "Every state produced by the conformance tool's generators satisfies all constraints added to the generator, unsatisfiable constraint sets are reported as such, and generation is reproducible from the random seed.",
  ["inputs"], "all constraint sets and seeds",
  "Tests sample constraint combinations.",
  ["go/ct/gen"], "constraint solving generators")
p("S03", "Conditions of the specification language mean what they say",
  "A condition of a conformance rule holds in a state exactly if its expressions have the values it asks for; states generated for a condition satisfy it, satisfiable conditions are not reported unsatisfiable, and the test cases enumerated for a rule lie on both sides of its conditions and cover all combinations of its parameters' samples.",
  ["inputs", "states"], "all conditions and states of the conformance tool",
  "Tests check single conditions in a few states.",
  ["go/ct/rlz/conditions.go", "go/ct/rlz/expressions.go", "go/ct/rlz/domains.go", "go/ct/rlz/test_value.go", "go/ct/rlz/rules.go"], "specification language of the conformance tool")
p("S04", "Conformance states are values: independent copies, exact equality and export",
  "An operation on a state of the conformance tool (execution stack, memory, storage, accounts, logs, journals, contexts) changes exactly what it is meant to change in that state and nothing in any other; clones and states read back from an export equal their origin in every part; two states are equal exactly if they agree in all that is relevant for their status, and states that are not equal have a listed difference.",
  ["histories"], "all histories of operations, copies, exports, releases and comparisons of states",
  "Tests modify single fields of single states.",
  ["go/ct/st", "go/ct/common/immutable_hash_array.go", "go/ct/common/bytes.go"], "state model of the conformance tool")
p("S05", "Interpreters see and modify exactly the conformance state they are given",
  "The parameters and the run context derived from a state of the conformance tool tell interpreters exactly the contents of that state (code, contexts, storage, transient storage, accounts, block hashes, access status), and what an interpreter does through them (storage writes, logs, calls, accesses, self-destructs) changes the state exactly so, with the prescribed results; nothing else can be changed through them.",
  ["histories"], "all histories of requests of an interpreter on any state",
  "Tests check single requests on small states.",
  ["go/ct/utils/adapter.go", "go/ct/st"], "bridge between the conformance tool and interpreters")
p("X01", "The Rust interpreter conforms to the EVM specification",
  "For every program, context, gas limit and revision the Rust interpreter yields the outcome, gas, refund, output and state effects the EVM specification defines, in every configuration.",
  ["programs", "inputs", "configurations"], "all programs, contexts, revisions and feature sets",
  "Unit tests sample instructions.",
  ["rust/src"], "interpreter of the Rust implementation")

p("N01", "Native interpreters behave through Tosca's interfaces as specified",
  "The interpreters written in C++ and Rust, run through Tosca's interpreter and conformance interfaces on a real host, in every registered configuration, nested and in parallel, yield exactly the results, requests to the host, gas, refunds and state changes that the EVM specification defines.",
  ["programs", "schedules", "configurations"], "all programs, contexts, revisions, registered interpreters and threads",
  "Tests run sampled instructions through the bridge.",
  ["go/interpreter/evmc", "go/interpreter/evmzero", "go/interpreter/evmrs", "cpp/vm/evmzero", "rust/src"], "interpreters behind the EVMC interface")
p("N02", "The EVMC bridge passes everything on unchanged",
  "A run of an interpreter behind the EVMC interface becomes one execution with exactly its parameters; every request of the executed machine becomes exactly the corresponding operation on the run's context and gets its answer; the machine's result becomes the run's: success and revert with their data, failures of the executed code without any, machine failures and unknown revisions as errors. The same holds for single steps, and nested and parallel runs do not mix.",
  ["histories", "inputs", "schedules"], "all machines, runs, nestings and answers of the context",
  "Tests check single requests and results.",
  ["go/interpreter/evmc/evmc_interpreter.go", "go/interpreter/evmc/evmc_steppable_interpreter.go"], "bridge to interpreters behind the EVMC interface")

p("A01", "Through the geth adapter interpreters see and have go-ethereum's semantics",
  "An interpreter run by go-ethereum's EVM through the geth adapter is given exactly the parameters of each frame, among them read-only mode (inherited by all nested frames), depth, gas and block and transaction context; nested calls and creations have exactly go-ethereum's outcome, gas, refunds (also temporarily negative ones) and addresses, failed ones leave nothing behind, and every request reads or changes exactly what it is meant to in the state.",
  ["histories", "inputs"], "all trees of calls, creations, requests and results, all revisions",
  "Tests use mocks and single requests.",
  ["go/geth_adapter/adapter.go"], "bridge from go-ethereum to interpreters")
p("A02", "The processor opera accepts, charges, executes and settles transactions exactly",
  "The processor opera rejects exactly the transactions that must be rejected, without other effects than the prescribed ones; charges intrinsic and used gas, refunds and the share of unused gas exactly; prepares the access lists; executes messages, creations, precompiled and state contracts with exactly the specified outcome and state effects through its state adapter; and reports them in the receipt.",
  ["histories", "inputs"], "all transactions, worlds and executions, all supported revisions",
  "Tests run a few scenarios.",
  ["go/processor/opera/processor.go", "go/geth_adapter/adapter.go", "go/interpreter/geth/geth.go"], "reference transaction processor")

p("A03", "Executions and steps of geth's interpreter have exactly their effects",
  "An execution run by geth's interpreter is given exactly its parameters (context, code, input, gas, value, read-only mode, revision); everything it does acts on the run's context, and its end is reported with exactly its output, gas and refunds, failures without any. Executing a number of instructions on a state of the conformance tool gives exactly the state the instructions produce, leaves nothing else changed, and does not depend on how the steps are divided; unknown revisions are rejected.",
  ["histories", "inputs"], "all states, instructions' effects, numbers of steps, ends and revisions",
  "Tests run a few executions on fixed states.",
  ["go/interpreter/geth/geth.go", "go/interpreter/geth/ct.go"], "reference interpreter and its adapter for the conformance tool")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
