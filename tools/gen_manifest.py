#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
M = 'model_checking'
EVM = 'TLA+ specification of the EVM (Evm.tla); TLC validates recorded executions of the real interpreter'
NOTE = {
 'C01': ('TLA+ model of the cache checked by TLC; its full state graph replayed into the real code (W-method), recorded histories checked by TLC',
         'Exhaustive for capacities 2 and 3 (with state-identifying suffixes on every edge); sampled histories up to capacity 100. Instantiations are the driver\'s, not evmzero\'s.'),
 'C02': ('TLA+ lock-level model checked by TLC; systematic and real-thread histories of the real code checked for a linearization by TLC',
         'Schedules of 2-3 threads with at most 2 preemptions at lock, hash, equality and copy operations plus random ones; real threads run under ThreadSanitizer, whose race reports count as violations.'),
 'C03': ('TLA+ specification of Keccak-256 evaluated by TLC on recorded cache histories', 'Sampled inputs and histories with evictions and threads; the underlying Keccak of ethash is replaced by a stand-in.'),
 'C04': ('TLA+ specification of the hash evaluated by TLC step by step against recorded hashes of the real code', 'Sizes 0..41 and 64, 65, 127, 128; sampled contents with all single-byte changes.'),
 'O01': ('TLA+ instruction table; TLC compares all 256 rows of the real table', 'Exhaustive over all byte values.'),
 'J01': ('TLA+ scan model checked by TLC; all its codes and recorded random codes compared with the real analysis', 'Exhaustive for codes up to 5 bytes over 7 representative byte values, random codes up to 65537 bytes; memory accesses observed by AddressSanitizer.'),
 'G01': ('TLA+ instruction table; TLC compares all 256 rows of the real table', 'Exhaustive over all byte values.'),
 'G02': ('TLA+ request model checked by TLC; recorded request sequences of the real bridge checked against it', 'Request sequences up to length 3 (sampled) and random longer ones in both build kinds.'),
 'E01': (EVM + ' for programs of arithmetic, comparison and bit instructions', 'All pairs of critical operands and random operands for every instruction; single steps, every observable compared.'),
 'E02': (EVM + ' at the bounds of the operand stack', 'Every instruction at the stack heights around its limits and at 1022..1024, executions that fill the stack, random stack programs; AddressSanitizer.'),
 'E03': (EVM + ' for memory programs', 'Random memory programs plus every memory instruction at critical offsets and sizes up to 2^256-1; AddressSanitizer. Memories of successful accesses stay below about 4 MB.'),
 'E04': (EVM + ' for all kinds of programs, also with exactly the gas they need up to an instruction and one unit less', 'Sampled programs of every instruction kind and revision; gas limits up to 2^60.'),
 'E05': (EVM + ' for jump programs', 'Every destination in and beyond random codes, critical 256-bit destinations and conditions, codes over 64 KB; AddressSanitizer.'),
 'E06': (EVM + ' for every byte value in every revision, and for every instruction whose cost depends on the revision', 'All 256 x 6 combinations of byte value and revision; sampled costs.'),
 'E07': (EVM + ' for storage programs', 'All combinations of original, current and new value (three values), temperature and revision, random sequences with nested calls. Cold slots with differing original and current values cannot occur and are left out.'),
 'E08': (EVM + ' for programs accessing accounts and slots', 'Random programs over few accounts and slots in every revision.'),
 'E09': (EVM + ' for read-only frames', 'Every state-changing and harmless instruction in every revision, read-only and not, random mixtures; nested frames are observed through the messages issued.'),
 'E10': (EVM + ' for calls with scripted results', 'Matrix of call kind, value, target, temperature and revision, and random calls with extreme operands; nested executions are replaced by all kinds of results.'),
 'E11': (EVM + ' for creations with scripted results', 'Init code sizes around the limit, random creations with extreme operands; nested executions are replaced by all kinds of results.'),
 'E12': (EVM + ' for programs reading the context', 'Random contexts with extreme values and positions.'),
 'E13': (EVM + ' for whole programs and arbitrary byte codes, comparing the reported outcomes', 'Random programs, byte soup, all programs of two and sampled of three elements over an alphabet; AddressSanitizer.'),
 'E14': (EVM + ' in batches: executions cut into batches of 0..40 instructions at random, resumed from the reported states', 'Five different cuts of each of about 360 programs (quick).'),
 'E15': (EVM + ' for one instance in eight configurations, two orders of cases and nested executions', 'Programs that differ in single bits, equal lengths, with absent, zero or given code hash, and random programs.'),
 'E16': (EVM + ' for one instance used by several threads, under ThreadSanitizer', 'Eight threads over all configurations of the caches; schedules are those of real threads, race reports count as violations.'),
 'L01': (EVM + ' for executions of the Go interpreter in all its configurations', 'Matrix and random programs of every instruction kind, boundary operands, all revisions, seven configurations, step by step where the interpreter offers single steps.'),
 'L02': (EVM + ' for programs made of, and jumping into, fused instruction sequences of the Go interpreter', 'All super instruction patterns with extreme operands, jumps into their middle, random byte codes; fused and unfused executions compared through the same specification. Codes beyond 64 KiB deviate (known findings).'),
 'L03': ('TLA+ cache models (LruTrace, LruLin, HashConc) checked by TLC; recorded and concurrent histories of the real caches checked against them', 'Sampled histories, real thread schedules under the race detector; model-level interleavings exhaustive for two threads.'),
 'T01': ('TLA+ specification of 256-bit amounts; TLC evaluates it on recorded calls of the real operations', 'All pairs of critical values and random values.'),
 'T02': ('TLA+ specification of the word types; TLC evaluates it on recorded calls of the real operations', 'Critical and random values.'),
 'T03': ('TLA+ specification of the textual encodings; TLC evaluates it on recorded encodings and decodings', 'Valid texts, all single-character mutations of some of them, random texts.'),
 'T04': ('TLA+ specification of EVM arithmetic; TLC evaluates it on recorded calls of the conformance tool\'s numbers', 'All pairs of critical operands and random operands.'),
 'R01': ('TLA+ model of the registries checked by TLC; its behaviours replayed into, and concurrent histories recorded from, the real registries checked by TLC', 'All model behaviours up to the bound, random longer ones, concurrent histories under the race detector checked for a linearization.'),
 'F01': ('TLA+ state machine of transaction processing (Floria.tla); TLC validates recorded transactions of the real processor with varied fees, refunds and outcomes',
         "Sampled boundary combinations of limit, price, leftover, refund, data and access list in all revisions. The interpreter is a scripted one; hashing and precompiled contracts are stand-ins for go-ethereum's."),
 'F02': ('TLA+ state machine of transaction processing (Floria.tla); TLC validates recorded transactions of the real processor around all acceptance limits',
         'Combinations of boundary nonces, codes, balances, prices, limits and sizes.'),
 'F03': ('TLA+ state machine of transaction processing (Floria.tla); TLC validates recorded transactions of the real processor; its model FloriaMC is explored by TLC and its behaviours replayed',
         'Random call trees, boundary values, nesting to depth 1025; model exhaustive for up to two (thorough: three) actions of executions over an alphabet of 23, its behaviours replayed (quick: a sample).'),
 'F04': ('TLA+ state machine of transaction processing (Floria.tla); TLC validates recorded transactions of the real processor with creations',
         'Boundary sizes, prefixes, deposits, nonces, collisions in all revisions, random trees of creations.'),
 'F05': ('TLA+ state machine of transaction processing (Floria.tla); TLC validates recorded transactions of the real processor calling the state contract',
         "Matrix of methods, kinds of calls, callers, gas amounts, lengths and values. The rule about the origin's account does not hold (known finding), nonces that would exceed 64 bits are not generated."),
 'F06': ('TLA+ state machine of transaction processing (Floria.tla); TLC validates recorded transactions of the real processor calling precompiled contracts',
         "All addresses 0..12 and similar ones, kinds of calls and revisions, gas around the cost. The contracts themselves are artificial ones in place of go-ethereum's."),
 'F07': ('TLA+ state machine of transaction processing (Floria.tla); TLC validates recorded transactions of the real processor with access lists and creations',
         'Matrix of recipients, access lists and executions in all revisions, random ones.'),
 'F08': ('TLA+ state machine of transaction processing (Floria.tla); TLC validates recorded transactions of the real processor with nested calls of all kinds',
         'All pairs of kinds of calls over the kinds of accounts, random trees, one chain to the depth limit.'),
 'S01': ('TLA+ specification of the EVM (Evm.tla, CtTrace.tla); TLC evaluates the effects prescribed by the rules of the conformance tool on recorded states',
         'Sampled states of every instruction kind and revision, including failing ones; the number of applicable rules is determined in every state. EXTCODEHASH of non-empty accounts deviates (known finding).'),
 'S02': ('TLA+ specification of the generators\' contract (StateGen.tla); TLC validates recorded histories of the real generators',
         'Random constraint sets with shared and bound variables, clones and restores; satisfiability decided for a class of sets the specification describes.'),
 'S03': ('TLA+ specification of the meaning of conditions (Conditions.tla); TLC evaluates it on states recorded from the real checks, generators and enumerations',
         'Random conditions of up to three elements over all predicates and expressions; satisfiability decided for a class of them; the existence of test cases on both sides is decided for single elements and pairs of independent ones.'),
 'S04': ('TLA+ specification of states as values on a heap of copies (CtState.tla), explored by TLC (CtStateMC); all its short histories and random ones are executed on real states and every change in any state is checked against it',
         'All histories of two (thorough: three) operations out of an alphabet on copies of one state, random long ones; keys and addresses from fixed sets.'),
 'S05': ('TLA+ specification of states as values (CtState.tla) including the requests of interpreters; recorded histories of real requests are checked against it, with every change in any state',
         'Random histories; keys and addresses from fixed sets. Known finding: hashes of code.'),
 'N01': (EVM + ' for executions of the C++ and Rust interpreters through Tosca\'s Go interfaces', 'Sampled programs of every kind of the E properties, in single steps of the conformance targets, whole, nested and on threads, for every registered configuration. The EVMC Go bindings and the Rust crates are offline stand-ins. Known findings: code hashes of conformance states; profiling configurations on threads.'),
 'N02': ('TLA+ specification of the bridge (EvmcBridge.tla), explored by TLC with every request and result over small domains; runs of random machines through the real bridge are checked event by event against it',
         'Random machines, requests, answers and nestings; the EVMC Go bindings are an offline stand-in.'),
 'A01': ('TLA+ specification of transactions on go-ethereum\'s EVM (Floria.tla with the rules of GethAdapter.tla), explored by TLC with its invariants; its behaviours and random trees of messages are run through the real adapter and checked event by event',
         'Random and model-generated trees of calls, creations and requests on an EVM that is an offline stand-in for go-ethereum; interpreters are scripted.'),
 'A02': ('TLA+ specification of the processor (Floria.tla with the rules of GethAdapter.tla), explored by TLC with its invariants; its behaviours and random transactions are run through the real processor and checked event by event',
         'Random and model-generated transactions up to London (the processor does not reach later revisions); go-ethereum is an offline stand-in; interpreters are scripted.'),
 'A03': ('TLA+ specification of executions and steps on states of the conformance tool (GethStep.tla on CtState.tla), explored by TLC with its invariants; its behaviours and random scripts of instruction effects are run through the real interpreter and its adapter and every resulting state is checked against it',
         'Random and model-generated states and instruction effects; go-ethereum is an offline stand-in whose interpreter executes scripts.'),
 'P01': ('TLA+ model of profile collection (Profiler.tla) explored by TLC; recorded histories of the real profiler and of profiling interpreters checked against it, counts against executions of the EVM specification',
         'All model behaviours up to the bound; random histories of executions, options, resets and dumps, nested and on threads. Times are only compared with the time that passed.'),
 'X01': (EVM + ' for executions of the Rust interpreter in several feature sets', 'Sampled programs of every kind of the E properties, stepwise, in batches, uninterrupted, nested and on threads. The crates it depends on are offline stand-ins; a host answers only what the interface leaves to hosts.'),
}
NA = {}
checks, na = [], []
for i in ids:
    if os.path.exists(V + '/checks/%s.py' % i) and i in NOTE:
        t, n = NOTE[i]
        cmd = 'python3 checks/%s.py' % i
        checks.append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': 'VERIF_TIER=thorough ' + cmd, 'technique': t, 'level': M, 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
