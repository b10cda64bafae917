"""The checks of the properties S01 and S02 of the conformance testing tool."""
import random, re
import evmcases as G
from evmgen import Case, Prog, OPS, NAMES, POPS, keccak256, SELF
from evmcheck import *
from echecks import T
from lchecks import pick

D = os.path.join(VERIF, 'drivers/go')
def rnd(k): return random.Random(SEED * 1000 + 400 + k)

def build_ct(c):
    ov = {'go/zz_verif_evmrun/main.go': D + '/evmrun/main.go', 'go/zz_verif_evmrun/ct.go': D + '/evmrun/ct.go'}
    return go_build('./go/zz_verif_evmrun', spath('evmrun-ct'), ov, go_mod())

def suited(cs):
    """The tool's states have no account whose existence and emptiness differ, no code hashes
    other than the Keccak hash of the code, no depth, and 16-bit positions."""
    res = []
    for i, x in enumerate(cs):
        if len(x.code) > 65000 or x.env['number'] < 257: continue
        x.id = 's%d-%s' % (i, x.id)
        x.depth = 0
        x.accts = {a: (t[0], t[1], int.from_bytes(keccak256(t[1]), 'big') if t[0] or t[1] else 0, bool(t[0] or t[1])) for a, t in x.accts.items()}
        res.append(x)
    return res

def direct(r, n):
    """Single instructions, valid and invalid, on stacks that are just there."""
    cases = []
    for i in range(n):
        op = r.choice(list(NAMES)) if r.random() < .8 else r.randrange(256)
        name = NAMES.get(op, '')
        k = POPS.get(name, 0) + r.choice([0, 0, 0, 1, 2, -1])
        code = bytes([op]) + bytes(r.choice([0, 0x5b, 0x5b, 0x60, 0xff, r.randrange(256)]) for _ in range(r.choice([0, 1, 3, 33, 40])))
        st = [G.word(r) if r.random() < .6 else r.choice([0, 1, 2, 31, 32, 33, 64, 100, 256, len(code), SELF, 1 << 64]) for _ in range(max(0, k))]
        cases.append(Case('op%d-%s' % (i, name or hex(op)), code, rev=r.randrange(6), gas=r.choice([100, 3000, 40000, 1000000]), static=r.random() < .25, stack=st, limit=1,
                          input=bytes(r.randrange(256) for _ in range(r.choice([0, 5, 40, 70]))), destructed=r.random() < .2, slots={k: (r.choice([0, 7, 9]), r.choice([0, 7, 9])) for k in range(4)},
                          trans={1: 5, 2: 0, 32: 9}, ws=[k for k in (0, 1, 2, 31, 32) if r.random() < .4]))
    return cases

def one(r, i, name, st, **kw):
    """One instruction on the stack st (top first)."""
    kw = {'rev': r.randrange(6), 'gas': r.choice([3000, 100000, 1000000]), 'input': bytes(range(1, 60)), **kw}
    return Case('%s%d' % (name, i), bytes([OPS[name], 0x5b, 0x60, 0x5b]), stack=st[::-1], limit=1, ws=[1], slots={1: (7, 7)}, trans={1: 5}, **kw)

def high(r, n):
    """Operands whose low bits are those of plausible ones."""
    cases = []
    for name in sorted(POPS):
        if not POPS[name] or name.startswith(('DUP', 'SWAP', 'PUSH', 'LOG')) and r.random() < .7: continue
        for i in range(POPS[name]):
            for b in (64, r.choice([32, 63, 65, 128, 255])):
                st = [0] * POPS[name]
                st[i] = 1 << b
                cases.append(one(r, len(cases), name, st))
            for h in r.sample([1 << 16, 1 << 32, 1 << 63, 1 << 64, 1 << 128, 1 << 160, 1 << 192, 1 << 255], n):
                st = [r.choice([0, 1, 1, 2, 32]) for _ in range(POPS[name])]
                st[i] += h
                cases.append(one(r, len(cases), name, st))
    return cases

def selfdestructs(r):
    cases = []
    for rev in range(6):
        for dead in (False, True):
            for who in (SELF, G.EOA, G.EMPTY, G.CONTRACT, 1, G.EMPTY + (1 << 160)):
                for bal in (0, 1):
                    cases.append(one(r, len(cases), 'SELFDESTRUCT', [who], rev=rev, destructed=dead, gas=r.choice([5000, 7600, 29999, 30000, 32600, 100000, 1000000]), static=r.random() < .1,
                                     accts={SELF: (bal, b'\xff', 0, True)}, wa=[SELF] + [x for x in (G.EOA, G.EMPTY, 1) if r.random() < .5]))
    return cases

def codehash_zero(x):
    """Nothing but the hash of the code of a non-empty account, which the tool takes for zero."""
    want = re.match(r'.*?status \|-> "run".*? pc \|-> (\d+), gas \|-> (<<[\d, ]+>>), ref \|-> (-?\d+), .*? n \|-> (\d+), top \|-> <<([^>]*)>>', x.raw, re.S)
    if x.op != 'EXTCODEHASH' or not want or not want.group(5): return False
    if x.fields == {'stack'}: return ' top |-> <<<<>>>>' in x.raw
    got = re.search(r'probe \|-> \[(.*)\]', x.raw, re.S)
    if not got or x.fields != {'run'}: return False
    f = dict(re.findall(r'(\w+) \|-> (<<[^>]*>>|[^,\]]+)', got.group(1)))
    return (f['rpc'], f['rg'], f['rr'], f['rn'], f['rt'], f['hs']) == (want.group(1), want.group(2), want.group(3), want.group(4), '<<>>', f['sd'])

def s01(c):
    """The rules of the conformance tool."""
    r = rnd(1)
    n = T(1, 8)
    exe = build_ct(c)
    cs = direct(r, T(500, 8000)) + high(r, T(2, 8)) + pick(r, selfdestructs(r), T(100, 1000)) + pick(r, G.arith(r, 24 * n), 40 * n) + pick(r, G.indices(r, THOROUGH), 20 * n) + pick(r, G.limbs(r, 8 * n), 15 * n) + pick(r, G.exponents(r), 6) + pick(r, G.sizes(r, THOROUGH), 60 * n) \
        + pick(r, G.stack_bounds(r, THOROUGH), 60 * n) + pick(r, G.stack_ops(r, 12 * n), 40 * n) + G.memory(r, 50 * n) + pick(r, G.memory_edges(r), 60 * n) + pick(r, G.jumps(r, 20 * n), 40 * n) \
        + pick(r, G.opcodes_by_revision(r), 150 * n) + pick(r, G.storage_triples(r), 80 * n) + pick(r, G.storage_random(r, 30 * n), 30 * n) + G.access(r, 30 * n) + pick(r, G.static_mode(r, 20 * n), 60 * n) \
        + G.calls(r, 50 * n) + pick(r, G.call_value_matrix(r), 60 * n) + pick(r, G.creates(r, 30 * n), 60 * n) + pick(r, G.environment(r, 30 * n), 40 * n) + G.hashes(r, 4 * n) + G.programs(r, 60 * n) + G.byte_soup(r, 60 * n)
    cs = suited(cs)
    rec = record(c, exe, cs, 'ct', timeout=400)
    reports, opened = compare(c, rec, module='CtTrace', nxt='CtNext')
    c.note('cases', len(cs)); c.note('open', opened)
    if rec: c.note('probes', open(rec.runs).read().count('"rst":'))
    for x in reports: c.violation(x.text(), {'case': x.case.text()[:20000], 'report': x.raw[:8000]}, key='codehash-zero' if codehash_zero(x) else None)

STATEGEN = {'broken': 'produced a state in which constraints added to it do not hold', 'unsound': 'produced an invalid state', 'satisfiable': 'reported satisfiable constraints as unsatisfiable',
    'unbound': 'did not find a value for a variable', 'irreproducible': 'answered differently to the same constraints and seed', 'error': 'failed'}

def s02(c):
    """The state generators of the conformance tool."""
    exe = go_build('./go/zz_verif_ctgen', spath('ctgen'), {'go/zz_verif_ctgen/main.go': D + '/ctgen/main.go', 'go/zz_verif_ctgen/cond.go': D + '/ctgen/cond.go'}, go_mod())
    count, parts = T((700, 4), (4000, 8))
    def part(i):
        f = spath('gen%d.ndjson' % i)
        rc, out, err = run([exe, f, str(count), str(SEED * 100 + i)], timeout=300)
        if rc: return f, None, 'generator driver exited with %d: %s' % (rc, err[-3000:])
        return f, tlc_must('StateGen', view='View', invariants=['Inv'], env={'RUNS': f}, heap='6g', workers=2, timeout=800), ''
    outs = {}
    for f, r, err in parallel([lambda i=i: part(i) for i in range(parts)], 4):
        if r is None:
            c.violation(err)
            continue
        c.model(r); c.traces(count)
        runs = {}
        for l in open(f):
            h = json.loads(l)
            runs[h['id']] = h['h']
            for o in h['h']:
                if o['op'] == 'gen': outs[o['out']] = outs.get(o['out'], 0) + 1
        c.sample(runs['h0'])
        for m in r.msgs:
            x = re.match(r'<<"BAD", "(\w+)", (\d+), "(\w+)", (.*)', m, re.S)
            if not x: raise CheckError('unexpected output: ' + m[:500])
            h, pos, what, info = x.groups()
            c.violation('history %s, step %s: the generator %s: %s' % (h, pos, STATEGEN[what], re.sub(r'\s+', ' ', info)[:600]), {'history': runs[h][:int(pos)], 'report': m[:8000]})
    c.note('outcomes', outs)

def ctgen_parts(c, kind, module, init, nxt, count, parts, heap='6g'):
    """Records parts of count items and has TLC evaluate them; yields (file, messages)."""
    exe = go_build('./go/zz_verif_ctgen', spath('ctgen'), {'go/zz_verif_ctgen/main.go': D + '/ctgen/main.go', 'go/zz_verif_ctgen/cond.go': D + '/ctgen/cond.go'}, go_mod())
    def part(i):
        f = spath('%s%d.ndjson' % (kind, i))
        rc, out, err = run([exe, f, str(count), str(SEED * 100 + 50 + i), kind], timeout=300)
        if rc: return f, None, 'the driver exited with %d: %s' % (rc, err[-3000:])
        return f, tlc_must(module, init=init, nxt=nxt, view='View', env={'RUNS': f}, heap=heap, workers=2, timeout=800), ''
    for f, r, err in parallel([lambda i=i: part(i) for i in range(parts)], 4):
        if r is None:
            c.violation(err)
            continue
        c.model(r); c.traces(count)
        yield f, r.msgs

CONDITIONS = {'check': 'the check of a condition disagrees with its meaning', 'generated': 'a state generated for a condition does not satisfy it', 'satisfiable': 'a satisfiable condition is reported unsatisfiable',
    'unbound': 'no value is found for a variable of a condition', 'error': 'a condition fails', 'hit': 'no test case satisfies the condition', 'miss': 'no test case violates the condition',
    'stop': 'test cases are produced after the consumer asked to stop', 'nothing': 'no test cases are produced', 'cases': 'a test case has unexpected parameters', 'number': 'there are too many test cases', 'incomplete': 'combinations of parameters are not tested'}

def s03(c):
    """The specification language of the conformance tool."""
    states = {}
    for kind, nxt, (count, parts) in (('conditions', 'CNext', T((450, 4), (900, 16))), ('parameters', 'ENext', T((300, 2), (1000, 4)))):
        for f, msgs in ctgen_parts(c, kind, 'Conditions', 'CInit', nxt, count, parts):
            runs = {}
            for l in open(f):
                h = json.loads(l)
                runs[h['id']] = h
                for o in h.get('obs', []): states['%s %s' % (o['from'], o['check'])] = states.get('%s %s' % (o['from'], o['check']), 0) + 1
            h = runs['h0']
            c.sample({k: h[k] for k in ('id', 'atoms', 'samples', 'out') if k in h})
            for m in msgs:
                x = re.match(r'<<"BAD", "(\w+)", "(\w+)", (.*)', m, re.S)
                if not x: raise CheckError('unexpected output: ' + m[:500])
                i, what, info = x.groups()
                h = runs[i]
                c.violation('%s %s: %s: %s' % (kind, i, CONDITIONS[what], re.sub(r'\s+', ' ', info)[:600]), {'condition': h.get('atoms', h.get('samples')), 'report': m[:8000]})
    c.note('observations', states)
