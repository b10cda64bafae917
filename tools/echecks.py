"""The checks of the EVM properties E01 to E16 on the C++ interpreter: which
cases are explored for a property and which differences break it."""
import collections, json, random
import evmcases as G
from evmgen import Case, Prog, OPS
from evmcheck import *

T = lambda quick, thorough: thorough if THOROUGH else quick
def rnd(k): return random.Random(SEED * 1000 + k)
ARITH = set(G.BIN + G.UN + G.TRI + ['EXP'])
CALLS = {'CALL', 'CALLCODE', 'DELEGATECALL', 'STATICCALL'}
CREATES = {'CREATE', 'CREATE2'}
LOGS = {'LOG%d' % i for i in range(5)}
COPIES = {'CALLDATACOPY', 'CODECOPY', 'RETURNDATACOPY', 'EXTCODECOPY', 'MCOPY'}
MEMORY = COPIES | CALLS | CREATES | LOGS | {'MLOAD', 'MSTORE', 'MSTORE8', 'MSIZE', 'SHA3', 'RETURN', 'REVERT'}
STACK = {'POP', 'PUSH0'} | {o for o in OPS if o.startswith(('PUSH', 'DUP', 'SWAP'))}
ENV = {'ADDRESS', 'ORIGIN', 'CALLER', 'CALLVALUE', 'CALLDATASIZE', 'CODESIZE', 'GASPRICE', 'RETURNDATASIZE', 'COINBASE', 'TIMESTAMP', 'NUMBER', 'PREVRANDAO',
       'GASLIMIT', 'CHAINID', 'SELFBALANCE', 'BASEFEE', 'BLOBBASEFEE', 'PC', 'MSIZE', 'GAS', 'BALANCE', 'EXTCODESIZE', 'EXTCODECOPY', 'EXTCODEHASH', 'CALLDATALOAD',
       'CALLDATACOPY', 'CODECOPY', 'RETURNDATACOPY', 'BLOCKHASH', 'BLOBHASH', 'SHA3'} | LOGS
REVISED = {'BALANCE', 'EXTCODESIZE', 'EXTCODECOPY', 'EXTCODEHASH', 'SLOAD', 'SSTORE', 'SELFDESTRUCT'} | CALLS | CREATES
OOG, UNDERFLOW, OVERFLOW, JUMP, RETCOPY, STATIC = 3, 7, 6, 8, 9, 11
UNDEFINED = {4, 5}
def unduly(x, why, codes):
    """Whether the difference is about failing for the given reason: it was not reported, or reported unduly."""
    return bool(x.fields & {'status', 'code'}) and ((x.why and x.why <= why) or (x.code in codes and not (x.why & why)))
def ok(x): return x.status != 'fail'


def e01(c):
    """Arithmetic."""
    r = rnd(1)
    cs = G.arith(r, T(30, 600)) + G.arith_pairs(r, T(20, 100)) + G.indices(r, THOROUGH) + G.limbs(r, T(25, 500)) + G.exponents(r)
    standard(c, cs, lambda x: x.op in ARITH and ok(x) and x.fields - {'gas'})

def e02(c):
    """Stack discipline."""
    r = rnd(2)
    cs = G.stack_bounds(r, THOROUGH) + G.stack_full(r) + G.stack_ops(r, T(60, 1500))
    standard(c, cs, lambda x: unduly(x, {'underflow', 'overflow'}, {UNDERFLOW, OVERFLOW}) or (x.op in STACK and ok(x) and x.fields - {'gas'}), ASAN)

def e03(c):
    """Memory."""
    r = rnd(3)
    edges = G.memory_edges(r)
    cs = G.memory(r, T(300, 6000)) + [x for i, x in enumerate(edges) if THOROUGH or i % 3 == SEED % 3 or x.id.startswith('overlap')]
    standard(c, cs, lambda x: (x.op in MEMORY and ok(x) and x.fields & {'memory', 'msize', 'output', 'effects', 'status'}) or (x.op in {'MLOAD', 'MSIZE', 'SHA3'} and 'stack' in x.fields)
             or (x.op == 'END' and 'output' in x.fields), ASAN)

def e05(c):
    """Control flow."""
    r = rnd(5)
    cs = G.jumps(r, T(250, 5000)) + G.jump_all(r, T(25, 300)) + G.stack_ops(r, 1) + G.landings(r, T(250, 9999))
    standard(c, cs, lambda x: unduly(x, {'jump'}, {JUMP}) or (x.op in ('JUMP', 'JUMPI', 'JUMPDEST') and ok(x) and x.fields & {'pc', 'status', 'stack'})
             or (x.op == 'STOP' and ok(x) and x.fields & {'status', 'output'}) or (x.op in STACK and ok(x) and x.fields & {'stack', 'pc'})
             or (x.op == 'END' and x.fields & {'status', 'output', 'effects'}), ASAN)

def e06(c):
    """Revisions."""
    r = rnd(6)
    cs = G.opcodes_by_revision(r)
    cs += [x for x in G.creates(r, 0) if x.id.startswith('init')] + G.access(r, T(100, 2000)) + G.storage_triples(r)
    cs += [x for x in G.call_value_matrix(r) if THOROUGH or r.random() < .5]
    standard(c, cs, lambda x: unduly(x, {'undefined', 'initcode'}, UNDEFINED) or (x.op in REVISED and x.fields & {'gas', 'refund', 'warm', 'status'}))

def e07(c):
    """Storage."""
    r = rnd(7)
    cs = G.storage_triples(r) + G.storage_random(r, T(500, 8000))
    def accept(x):
        if x.op == 'SSTORE' and (x.status == 'run' or unduly(x, {'oog'}, {OOG})): return x.fields - {'warm'}
        if x.op == 'SLOAD': return ok(x) and x.fields & {'stack', 'effects'}
        if x.op in CALLS | CREATES | {'SELFDESTRUCT', 'END'}: return ok(x) and x.fields & {'refund'}
        return False
    standard(c, cs, accept)

def e08(c):
    """Access lists."""
    r = rnd(8)
    cs = G.access(r, T(500, 8000)) + [x for x in G.storage_triples(r) if r.random() < .5] + G.call_value_matrix(r)[::T(4, 1)]
    def accept(x):
        if x.op in {'BALANCE', 'EXTCODESIZE', 'EXTCODECOPY', 'EXTCODEHASH', 'SLOAD', 'SSTORE', 'SELFDESTRUCT'} | CALLS: return x.fields & {'gas', 'warm'} or unduly(x, {'oog'}, {OOG})
        return 'warm' in x.fields
    standard(c, cs, accept)

def e09(c):
    """Read-only executions."""
    r = rnd(9)
    cs = G.static_mode(r, T(300, 5000)) + [x for x in G.calls(r, T(150, 2000)) if x.static or 0xfa in x.code]
    def accept(x):
        if 'static' in x.fields or unduly(x, {'static'}, {STATIC}): return True
        if x.op in CALLS and 'effects' in x.fields:    # a nested call that lost the read-only mode
            return x.raw.count('static |-> TRUE') > 0 and x.raw.count('static |-> FALSE') > 0 and (x.case.static or x.op == 'STATICCALL')
        return False
    standard(c, cs, accept)

def e10(c):
    """Calls."""
    r = rnd(10)
    m = G.call_value_matrix(r)
    cs = G.calls(r, T(700, 10000)) + (m if THOROUGH else m[SEED % 2::2])
    standard(c, cs, lambda x: (x.op in CALLS and not unduly(x, {'underflow', 'overflow'}, {UNDERFLOW, OVERFLOW})) or (x.op == 'END' and ok(x)))

def e11(c):
    """Creations."""
    r = rnd(11)
    cs = G.creates(r, T(700, 10000))
    standard(c, cs, lambda x: (x.op in CREATES and not unduly(x, {'underflow', 'overflow'}, {UNDERFLOW, OVERFLOW})) or (x.op == 'END' and ok(x)))

def e12(c):
    """Context and data."""
    r = rnd(12)
    cs = G.environment(r, T(350, 6000)) + G.hashes(r, T(40, 400))
    def accept(x):
        if x.op == 'GAS': return ok(x) and 'stack' in x.fields
        if x.op in ENV: return (ok(x) and x.fields - {'gas', 'warm'}) or unduly(x, {'retcopy'}, {RETCOPY})
        return False
    standard(c, cs, accept)

OUTCOME = {'status', 'code', 'failgas', 'failout', 'output'}
def model(c, alphabet, size, revs, gases):
    """The specification itself, explored on all programs over an alphabet."""
    evmgen.write([Case('base', b'')], spath('base'))
    open(spath('alphabet'), 'w').write(json.dumps({'alphabet': [list(x) for x in alphabet]}) + '\n')
    m = tlc_must('EvmModel', dict(Size=size, Revs='{%s}' % revs, Gases='{%s}' % gases), invariants=['TypeOK', 'Steps', 'Gas'], env={'BASE': spath('base') + '.ndjson', 'ALPHABET': spath('alphabet')}, heap='8g')
    c.model(m)
    c.note('model_states', m.distinct)

def e13(c):
    """Outcomes of whole programs."""
    r = rnd(13)
    al = [bytes.fromhex(x) for x in ('00', '01', '5b', '6001', '6003', '56', '57', '52', 'f3', 'fd', '5f', '50', 'fe', '0c', '600056', '6005')]
    cs = G.programs(r, T(350, 6000)) + G.byte_soup(r, T(500, 10000)) + (G.small_programs(al, 2) + (G.small_programs(al, 3) if THOROUGH else r.sample(G.small_programs(al, 3), 700)))
    model(c, al + [bytes.fromhex(x) for x in ('55', '5d', 'ff', '80', '31', 'a0')], *T((2, '0, 5', '9, 40000'), (3, '2, 5', '9, 24, 40000')))
    def accept(x):
        if x.op == 'END': return x.fields
        if x.op in ('RETURN', 'REVERT', 'STOP', 'SELFDESTRUCT', 'INVALID') and x.fields & {'gas', 'output'}: return ok(x) and x.status != 'run'
        return x.fields & OUTCOME
    standard(c, cs, accept, ASAN)

def consistent_filter(reports, rec):
    """Differences of those cases that do not differ in every recorded run alike."""
    runs = collections.defaultdict(set)
    for l in open(rec.runs):
        j = json.loads(l)
        runs[rec.cases[j['c'] - 1].id].add(j['tag'])
    bad = collections.defaultdict(set)
    for x in reports:
        if x.op != 'END': bad[x.case.id].add(x.tag)
    return lambda x: x.op == 'END' or bad[x.case.id] != runs[x.case.id]

def e14(c):
    """Batches of steps."""
    r = rnd(14)
    cs = G.programs(r, T(120, 1500)) + G.jumps(r, T(30, 400)) + G.landings(r, T(60, 9999)) + G.storage_random(r, T(40, 500))[:T(40, 500)] + G.calls(r, T(60, 800)) + G.memory(r, T(40, 500)) \
        + G.creates(r, T(30, 400))[:T(30, 400)] + G.stack_ops(r, 20)[:20]
    exe = build(PLAIN)
    rec = record(c, exe, cs, 'batches', T(5, 8))
    reports, opened = compare(c, rec)
    c.note('cases', len(cs)); c.note('open', opened)
    if rec: judge(c, reports, consistent_filter(reports, rec))

def outcomes_differ(rec):
    """Cases for which different outcomes were recorded."""
    res = set()
    for l in open(rec.runs):
        j = json.loads(l)
        if len(j['fin']) > 1: res.add(rec.cases[j['c'] - 1].id)
    return res

def sharing_cases(r, n):
    """Programs that are easily mistaken for each other by a cache."""
    cs = []
    for i in range(n):
        base = G.programs(r, 1, 'base%d-' % i)[0]
        cs.append(base)
        for k in range(3):
            code = bytearray(base.code)
            if code: code[r.randrange(len(code))] ^= 1 << r.randrange(8)
            cs.append(Case('var%d-%d' % (i, k), bytes(code), rev=base.rev, gas=base.gas, input=base.input, calls=base.calls, slots=base.slots, limit=700,
                           hashmode=r.choice([0, 0, 1, 2])))
    # jumps that are valid in one code and data in another of the same length
    for i in range(n):
        L = r.randrange(40, 300)
        for k in range(4):
            body = bytearray(r.choice([0x5b, 0x5b, 0x60, 0x7f, 0x58]) for _ in range(L))
            p = Prog().push(r.randrange(3, L + 3), 2).op('JUMP')
            for m in (0, 2): cs.append(Case('jd%d-%d-%d' % (i, k, m), bytes(p.b + body), gas=300, hashmode=m, limit=300))
    # hashes of equal and similar inputs of cached sizes
    for i in range(n):
        w = r.getrandbits(256)
        for k in range(3):
            p = Prog().do('MSTORE', 0, w ^ (k << r.choice([0, 64, 128, 255]))).do('MSTORE', 32, w).do('SHA3', 0, r.choice([32, 64])).do('SHA3', 0, 32).do('SHA3', 32, 32).do('SHA3', 0, 64).do('MSTORE', 64, 0)
            p = Prog(); a = w ^ (k << r.choice([0, 64, 128, 255]))
            p.do('MSTORE', 0, a).do('MSTORE', 32, w)
            for j, (o, s) in enumerate([(0, 32), (32, 32), (0, 64), (16, 32), (0, 33)]): p.do('SHA3', o, s).push(96 + 32 * j).op('MSTORE')
            p.do('RETURN', 96, 160)
            cs.append(Case('sha%d-%d' % (i, k), p, gas=100000, limit=300))
    return cs

def e15(c):
    """Configurations and histories."""
    r = rnd(15)
    cs = sharing_cases(r, T(45, 500)) + G.programs(r, T(150, 2000)) + G.byte_soup(r, T(100, 1000))
    exe = build(('-O1',))
    for mode in ('exec', 'nested'):
        rec = record(c, exe, cs, mode, 0)
        reports, opened = compare(c, rec)
        if not rec: continue
        differ = outcomes_differ(rec)
        judge(c, reports, lambda x: x.case.id in differ)
    c.note('cases', len(cs)); c.note('open', opened)

def e16(c):
    """Threads."""
    r = rnd(16)
    cs = sharing_cases(r, T(40, 300)) + G.programs(r, T(150, 2000))
    exe = build(TSAN)
    opened = 0
    for i, n in enumerate((T((8,), (4, 8, 16, 32)))):
        rec = record(c, exe, cs, 'threads', n, tag=str(i))
        reports, opened = compare(c, rec)
        if not rec: continue
        differ = outcomes_differ(rec)
        judge(c, reports, lambda x: x.case.id in differ)
    c.note('cases', len(cs)); c.note('open', opened)

def consumed(rec):
    """Gas used after each step, per case, from a recording."""
    res = {}
    for l in open(rec.runs):
        j = json.loads(l)
        x = rec.cases[j['c'] - 1]
        res[x.id] = [(x.gas - ((o['gas'][0] << 60) + (o['gas'][1] << 30) + o['gas'][2]), o['st']) for o in j['e']]
    return res

def e04(c):
    """Gas: all kinds of programs with ample gas, then with exactly the gas they need up to some instruction, and one less."""
    r = rnd(4)
    pick = lambda cs, n: cs if len(cs) <= n else r.sample(cs, n)
    n = T(1, 12)
    cs = pick(G.arith(r, 12 * n), 12 * n) + pick(G.opcodes_by_revision(r), 350 * n) + G.memory(r, 80 * n, hi=.02) + pick(G.memory_edges(r), 120 * n) + G.environment(r, 50 * n) \
        + pick(G.storage_triples(r), 60 * n) + G.storage_random(r, 40 * n)[:40 * n] + G.access(r, 50 * n) + G.calls(r, 70 * n) + pick(G.call_value_matrix(r), 60 * n) \
        + pick(G.creates(r, 60 * n), 110 * n) + G.hashes(r, 6) + G.exponents(r) + G.sizes(r, THOROUGH) + G.programs(r, 80 * n) + pick(G.stack_ops(r, 10), 20) + pick(G.jumps(r, 30), 40) + G.landings(r, 100 * n)
    for i, x in enumerate(cs): x.id = 'g%d-%s' % (i, x.id)
    accept = lambda x: (x.fields & {'gas', 'failgas'} and not (x.op == 'END' and 'status' in x.fields)) or unduly(x, {'oog'}, {OOG}) or (x.fields & {'status'} and x.why == {'oog'})
    exe = build(PLAIN)
    rec = record(c, exe, cs, 'steps')
    reports, opened = compare(c, rec)
    judge(c, reports, accept)
    if not rec: return
    used = consumed(rec)
    tight = []
    for x in cs:
        u = used[x.id]
        pos = [k for k in range(len(u)) if u[k][1] in ('run', 'ret', 'rev', 'stop') and u[k][0] > 0]
        if not pos or x.stack: continue
        for k in {pos[-1], r.choice(pos)} if not THOROUGH else set(r.sample(pos, min(4, len(pos)))) | {pos[-1]}:
            for d in (0, -1):
                if r.random() < T(.5, 1):
                    y = Case.__new__(Case); y.__dict__.update(x.__dict__)
                    y.gas, y.id = u[k][0] + d, '%s-%d-%d' % (x.id, k, -d)
                    if y.gas >= 0 and y.gas != x.gas: tight.append(y)
    rec = record(c, exe, tight, 'steps', tag='tight')
    reports, opened2 = compare(c, rec)
    judge(c, reports, accept)
    c.note('cases', len(cs) + len(tight)); c.note('open', opened + opened2)
