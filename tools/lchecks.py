"""The checks of the properties L01 to L03 of the Go interpreter lfvm."""
import json, random, re
import evmcases as G
from evmgen import Case, Prog, OPS
from evmcheck import *
from echecks import T, sharing_cases, outcomes_differ

def rnd(k): return random.Random(SEED * 1000 + 100 + k)
D = os.path.join(VERIF, 'drivers/go')

def build_go(c, name='evmrun', flags=(), steps=True):
    """The Go driver, with access to single steps of lfvm unless its internals have changed too much."""
    out = spath(name)
    main = {'go/zz_verif_evmrun/main.go': D + '/evmrun/main.go'}
    if steps:
        try:
            return go_build('./go/zz_verif_evmrun', out, {**main, 'go/zz_verif_evmrun/step.go': D + '/evmrun/step.go', 'go/interpreter/lfvm/zz_verif.go': D + '/evmrun/lfvm_step.go'}, go_mod(), flags), True
        except CheckError as e:
            c.note('without_steps', str(e)[-600:])
    return go_build('./go/zz_verif_evmrun', out, main, go_mod(), flags), False

def pick(r, cs, n): return cs if len(cs) <= n else r.sample(cs, n)

def anything(x): return x.fields

SEQ = {'SWAP2_SWAP1_POP_JUMP': ['SWAP2', 'SWAP1', 'POP', 'JUMP'], 'SWAP1_POP_SWAP2_SWAP1': ['SWAP1', 'POP', 'SWAP2', 'SWAP1'],
       'POP_SWAP2_SWAP1_POP': ['POP', 'SWAP2', 'SWAP1', 'POP'], 'POP_POP': ['POP', 'POP'], 'PUSH1_SHL': [1, 'SHL'], 'PUSH1_ADD': [1, 'ADD'], 'PUSH1_DUP1': [1, 'DUP1'],
       'PUSH2_JUMP': [2, 'JUMP'], 'PUSH2_JUMPI': [2, 'JUMPI'], 'PUSH1_PUSH1': [1, 1], 'SWAP1_POP': ['SWAP1', 'POP'], 'POP_JUMP': ['POP', 'JUMP'], 'SWAP2_SWAP1': ['SWAP2', 'SWAP1'],
       'SWAP2_POP': ['SWAP2', 'POP'], 'DUP2_MSTORE': ['DUP2', 'MSTORE'], 'DUP2_LT': ['DUP2', 'LT'], 'ISZERO_PUSH2_JUMPI': ['ISZERO', 2, 'JUMPI'],
       'PUSH1_PUSH4_DUP3': [1, 4, 'DUP3'], 'AND_SWAP1_POP_SWAP2_SWAP1': ['AND', 'SWAP1', 'POP', 'SWAP2', 'SWAP1'], 'PUSH1_PUSH1_PUSH1_SHL_SUB': [1, 1, 1, 'SHL', 'SUB']}

def pushed(r, n, dest=None):
    if n == 2 and dest is not None: return dest.to_bytes(2, 'big')
    if n == 1: return bytes([r.choice([0, 1, 2, 0x5b, 0x60, 0x7f, 0x80, 0xa0, 0xff, 0x1b, r.randrange(256)])])
    return bytes(r.choice([0, 0, 0xff, 0x5b, r.randrange(256)]) for _ in range(n))

def fused(r, n):
    """Every sequence of instructions that may be fused, on many stacks; also cut
    off by the end of the code, short of gas, and entered in its middle."""
    cases = []
    for name, seq in SEQ.items():
        for i in range(n):
            depth = r.choice([0, 1, 2, 3, 4, 4, 5, 5, 6, 6, 7, 8])
            full = r.random() < .08
            if full: depth = 1024 - r.randrange(4)
            stack = [G.word(r) for _ in range(min(depth, 8))]
            p = Prog()
            if depth > 8:
                for _ in range(depth - 8): p.op('PC')
            for w in stack: p.push(w, 32 if r.random() < .3 else None)
            # operands that matter: destinations, conditions, offsets
            head = len(p)
            mark = len(cases)
            width = sum(1 + (x if isinstance(x, int) else 0) for x in seq)
            dest = None
            if 'JUMP' in seq or 'JUMPI' in seq:
                # the destination follows the sequence; room for its pushes is kept constant
                p = Prog()
                k = {'SWAP2_SWAP1_POP_JUMP': 3, 'POP_JUMP': 2}.get(name, 0)
                ops = [G.word(r) for _ in range(max(0, min(depth, 8) - 1))]
                for _ in range(max(0, depth - 8)): p.op('PC')
                base = len(p) + 33 * (len(ops) + 1) + width
                target = base + 2 if r.random() < .7 else r.choice([0, 1, base, base + 1, base + 3, base + 4, base + 200, 0xffff, len(p), 65535])
                if r.random() < .15: target += r.choice([1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 63, 1 << 64, 1 << 128, 1 << 255])
                ops = ops + [r.choice([0, 0, 1, 1 << 64, 1 << 255])]
                if k: 
                    while len(ops) < k: ops.append(0)
                    base = len(p) + 33 * len(ops) + width
                    ops[-k] = target
                for w in ops: p.push(w, 32)
                base = len(p) + width
                dest = (base + 2 if r.random() < .75 else r.choice([0, 1, base, base + 1, base + 3, base + 4, 0xffff])) & 0xffff
                if k and ops[-k] < (1 << 16) and r.random() < .6:
                    q = Prog(); q.b = type(q.b)(p.b[:len(p) - 33 * k]) if hasattr(q, 'b') else q.b
                    p = q; ops[-k] = base + 2
                    for w in ops[-k:]: p.push(w, 32)
            for x in seq:
                if isinstance(x, int): p.raw(bytes([0x5f + x]) + pushed(r, x, dest))
                else: p.op(x)
            end = len(p)
            tail = r.random()
            if tail < .65: p.op('PC', 'JUMPDEST').op('PC').push(7).op('JUMPDEST', 'MSIZE')
            elif tail < .8: p.op('JUMPDEST')
            if dest is not None and tail < .65:
                p = Prog().raw(bytes(p.b[:end])).op('PC', 'STOP', 'JUMPDEST', 'PC').push(9).op('JUMPDEST', 'GAS')
            code = bytes(p.b)
            cut = r.random()
            if cut < .12: code = code[:end - r.randrange(1, width + 1)]
            gas = 100000
            rev = r.choice([5, 5, 5, 0, 4])
            cases.append(Case('fused-%s-%d' % (name, i), code, rev=rev, gas=gas, limit=1200, skip=max(0, depth - 9)))
            if r.random() < .3:
                g = 3 * (min(depth, 8) + 1) + 2 * max(0, depth - 8) + r.randrange(0, 22)
                cases.append(Case('fusedgas-%s-%d' % (name, i), code, rev=rev, gas=g, limit=1200, skip=max(0, depth - 9)))
            if r.random() < .25 and depth < 9 and head < 200:
                # enter the sequence in its middle: a jump to each of its bytes, one of which may be a JUMPDEST in push data
                t = r.randrange(head, end + 2)
                q = Prog().push(1, 1).push(2, 1).push(3, 1).push(t + 10, 2).op('JUMP').raw(code)
                cases.append(Case('fusedmid-%s-%d' % (name, i), bytes(q.b), rev=rev, gas=gas, limit=200))
    return cases

def fusible(r, n):
    """Random code over the instructions that take part in fused sequences."""
    al = [bytes([OPS[o]]) for o in ('SWAP1', 'SWAP2', 'POP', 'POP', 'DUP1', 'DUP2', 'DUP3', 'AND', 'SUB', 'SHL', 'ADD', 'LT', 'ISZERO', 'MSTORE', 'JUMP', 'JUMPI', 'JUMPDEST', 'PC')]
    cases = []
    for i in range(n):
        b = bytearray()
        for _ in range(r.randrange(4, 9)): b += bytes([0x60, r.randrange(64)])
        for _ in range(r.randrange(5, 50)):
            k = r.random()
            if k < .2: b += bytes([0x60, r.choice([r.randrange(90), 0x5b, 0x60])])
            elif k < .3: b += bytes([0x61, 0, r.choice([r.randrange(90), 0x5b])])
            elif k < .34: b += bytes([0x63]) + bytes(r.choice([0, 0, 0x5b, 0x60, 0xff]) for _ in range(4))
            elif k < .36: b.append(r.choice([0x60, 0x61, 0x63, 0x7f]))
            elif k < .6: 
                for x in r.choice(list(SEQ.values())): b += bytes([0x5f + x]) + bytes(r.choice([0] * (x - 1)) for _ in range(x - 1)) + bytes([r.randrange(90)]) if isinstance(x, int) else bytes([OPS[x]])
            else: b += r.choice(al)
        cases.append(Case('fusible%d' % i, bytes(b), rev=r.choice([5, 0]), gas=r.choice([300, 1000, 100000]), limit=500))
    return cases

EDGES = [0, 1, 2, 7, 8, 31, 32, 33, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 95, 96, 119, 120, 121, 127, 128, 129, 160, 184, 185, 191, 192, 193, 224, 247, 248, 249, 254, 255]
LIMB = [0, 1, 0xff, 0x100, 2**32 - 1, 2**63 - 1, 2**63, 2**64 - 256, 2**64 - 255, 2**64 - 2, 2**64 - 1, 2**64 - 1, 2**64 - 1]
def limbs(r): return sum(r.choice(LIMB) << 64 * k for k in range(4))

def operands(r, n):
    """Fused arithmetic on operands that matter for it: carries between limbs, values shifted across limbs."""
    cases = []
    imm = lambda: r.choice([r.choice(EDGES), r.randrange(256)])
    for i in range(n):
        p = Prog()
        for _ in range(12):
            k = r.randrange(10)
            if k < 4: p.raw(bytes([0x60, imm(), 0x60, r.choice([1, 127, 128, 129, 254, 255, imm()]), 0x60, imm()])).op('SHL', 'SUB')
            elif k < 6: p.push(limbs(r), 32).raw(bytes([0x60, r.choice([1, 255, imm()])])).op('ADD')
            elif k < 7: p.push(limbs(r), 32).raw(bytes([0x60, imm()])).op('SHL')
            elif k < 8:
                w = limbs(r)
                p.push(w, 32).push(r.choice([w, w ^ (1 << r.randrange(256)), limbs(r)]), 32).op('DUP2', 'LT')
            elif k < 9: p.push(1).push(limbs(r), 32).push(limbs(r), 32).push(limbs(r), 32).push(limbs(r), 32).op('AND', 'SWAP1', 'POP', 'SWAP2', 'SWAP1')
            else: p.push(limbs(r), 32).raw(b'\x50' if r.random() < .3 else b'').raw(bytes([0x60, imm(), 0x60, imm()]))
            if r.random() < .3: p.op('GAS')
        cases.append(Case('operands%d' % i, p, rev=5, gas=100000, limit=300))
    return cases

def near_misses(r, n):
    """Sequences that differ in one instruction from one that may be fused."""
    must, may = [], []
    for name, seq in SEQ.items():
        for j, x in enumerate(seq):
            b = 0x5f + x if isinstance(x, int) else OPS[x]
            for o in range(256):
                if o != b: (must if o == 0x5b or abs(o - b) == 1 else may).append((name, j, o))
    cases = []
    for name, j, o in must + r.sample(may, min(n, len(may))):
        for end in ((True, False) if (name, j, o) in must and n > 400 else (r.random() < .6,)):
            p = Prog()
            dest = r.choice([0, 0, 3])
            for w in [r.choice([0, 1, 5, 32]) for _ in range(r.choice([4, 5, 7, 7]))]: p.push(w, 1)
            for k, x in enumerate(SEQ[name]):
                data = pushed(r, x) if isinstance(x, int) else b''
                if k == j: p.raw(bytes([o]) + data)
                elif isinstance(x, int): p.raw(bytes([0x5f + x]) + data)
                else: p.op(x)
            if not end: p.op('JUMPDEST', 'PC', 'MSIZE')
            cases.append(Case('near-%s-%d-%02x-%d' % (name, j, o, end), p, rev=5, gas=100000, limit=60))
    return cases

def positions(r, n):
    """The program counter at every position; push data of every width at every alignment and at the end of the code."""
    cases = []
    for i in range(n):
        p = Prog()
        for _ in range(r.randrange(5, 25)):
            k = r.random()
            if k < .4: p.op('PC')
            elif k < .7:
                w = r.randrange(1, 33); p.raw(bytes([0x5f + w]) + bytes(r.choice([0x5b, 0x58, 0xff, 0, r.randrange(256)]) for _ in range(w)))
            elif k < .85: p.op('JUMPDEST')
            else: p.op('POP') if r.random() < .3 else p.op('PC')
        cases.append(Case('pos%d' % i, p, gas=100000, rev=r.choice([0, 5]), limit=200))
    for w in range(1, 33):
        data = bytes(r.choice([0xff, 0x5b, 1, r.randrange(256)]) for _ in range(w))
        for have in sorted({0, 1, w - 1, w, w + 1, r.randrange(w + 1)}):
            for lead in (0, 1):
                cases.append(Case('push%d-%d-%d' % (w, have, lead), b'\x58' * lead + bytes([0x5f + w]) + (data + b'\x58\x58')[:have] if have > w else b'\x58' * lead + bytes([0x5f + w]) + data[:have], gas=100))
    # jumps over long stretches of code that converts to fewer instructions
    for L in (40, 1000, 33000, 49000):
        for t in (L, L + 1, L - 1):
            p = Prog().push(t, 3).op('JUMP')
            while len(p) + 33 <= L: p.raw(b'\x7f' + bytes(r.choice([0x5b, 0x58]) for _ in range(32)))
            p.raw(b'\x58' * (L - len(p))).op('JUMPDEST', 'PC').push(1).op('PC')
            cases.append(Case('far%d-%d' % (L, t), p, gas=1000))
            q = Prog().raw(b'\x60\x01' * ((L - 1) // 2)).raw(b'\x58' * (L - 2 * ((L - 1) // 2))).op('JUMPDEST', 'PC')
            if L <= 1000: cases.append(Case('fall%d' % L, q, gas=100000, limit=1100))
    return cases

def over64k(r):
    """Code longer than 2^16 bytes (which only initialization code can be, before Shanghai)."""
    cases = []
    fill = bytearray()
    while len(fill) < 65600: fill += b'\x7f' + bytes(32)
    for name, tail in (('pc', bytes([0x5b, 0x58, 0x60, 0x01, 0x01, 0x50])), ('jumpto', bytes([0x5b, 0x60, 0x07, 0x5b, 0x60, 0x09, 0x01])), ('plain', bytes([0x5b, 0x3d, 0x15, 0x5b, 0x3d]))):
        p = Prog().push(len(fill) + 4 + 1, 3).op('JUMP').raw(fill[:len(fill)])
        code = bytes(p.b) + tail
        p = Prog().push(len(code) - len(tail), 3).op('JUMP').raw(fill)
        cases.append(Case('over64k-' + name, bytes(p.b) + tail, rev=0, gas=1000, limit=50))
    return cases

def known_key(x):
    """Known findings: these two programs fail unduly."""
    return x.case.id if x.case.id in ('over64k-pc', 'over64k-jumpto') and x.code == -2 and x.op in ('PC', 'JUMPDEST', 'END') else None

def report(c, reports, accept):
    for x in reports:
        if accept(x): c.violation(x.text(), {'case': x.case.text()[:20000], 'report': x.raw[:8000]}, key=known_key(x))
        else: c.notes['differences_of_other_properties'] = c.notes.get('differences_of_other_properties', 0) + 1

def unique(cs):
    for i, x in enumerate(cs): x.id = x.id if x.id.startswith('over64k') else 'l%d-%s' % (i, x.id)
    return cs

def observed(c, cs, accept):
    exe, steps = build_go(c)
    opened = 0
    for mode in ('steps', 'exec'):
        if mode == 'steps' and not steps: continue
        sub = cs
        if mode == 'exec':
            sub = [x for x in cs if not getattr(x, 'stack', None)]
        rec = record(c, exe, sub, mode, timeout=400)
        reports, o = compare(c, rec)
        opened += o
        report(c, reports, accept)
    c.note('cases', len(cs)); c.note('open', opened)

def l01(c):
    """Conformance of the Go interpreter."""
    r = rnd(1)
    n = T(1, 10)
    cs = pick(r, G.arith(r, 24 * n), 40 * n) + G.arith_pairs(r, T(10, 99)) + pick(r, G.indices(r, THOROUGH), 30 * n) + pick(r, G.limbs(r, 8 * n), 25 * n) + G.exponents(r) + pick(r, G.sizes(r, THOROUGH), 60 * n) \
        + pick(r, G.stack_bounds(r, THOROUGH), 150 * n) + pick(r, G.stack_ops(r, 12 * n), 60 * n) + G.memory(r, 60 * n) + pick(r, G.memory_edges(r), 80 * n) + pick(r, G.jumps(r, 20 * n), 40 * n) \
        + pick(r, G.opcodes_by_revision(r), 350 * n) + pick(r, G.storage_triples(r), 80 * n) + pick(r, G.storage_random(r, 30 * n), 40 * n) + G.access(r, 40 * n) + pick(r, G.static_mode(r, 20 * n), 90 * n) \
        + G.calls(r, 60 * n) + pick(r, G.call_value_matrix(r), 70 * n) + pick(r, G.creates(r, 40 * n), 80 * n) + pick(r, G.environment(r, 40 * n), 60 * n) + G.hashes(r, 5 * n) + G.programs(r, 120 * n) + G.byte_soup(r, 100 * n) + G.landings(r, 80 * n)
    observed(c, unique(cs), anything)

def l02(c):
    """Conversion and super-instructions."""
    r = rnd(2)
    cs = fused(r, T(18, 250)) + operands(r, T(40, 800)) + near_misses(r, T(250, 12000)) + fusible(r, T(220, 4000)) + positions(r, T(60, 800)) + pick(r, G.jump_all(r, T(4, 40)), T(180, 3000)) + pick(r, G.jumps(r, T(30, 400)), T(80, 1200)) + over64k(r) + G.landings(r, T(100, 9999))
    observed(c, unique(cs), anything)

def l03(c):
    """Caches."""
    r = rnd(3)
    # The design, and that it depends on copying the hash inside the critical section.
    k = dict(Keys='1..%d' % T(3, 4), Cap=2, Threads='1..%d' % T(2, 3), CopyInside='TRUE')
    c.model(tlc_must('HashConc', k, invariants=['OwnHash', 'WellFormed']))
    if not tlc('HashConc', dict(k, CopyInside='FALSE'), invariants=['OwnHash']).invariant: raise CheckError('the model does not notice copies outside of the critical section')
    # The caches themselves.
    ov = {'go/zz_verif_cache/main.go': D + '/lfvmcache/main.go', 'go/interpreter/lfvm/zz_verif.go': D + '/lfvmcache/lfvm_cache.go'}
    try:
        exe = go_build('./go/zz_verif_cache', spath('lfvmcache'), ov, go_mod())
        race = go_build('./go/zz_verif_cache', spath('lfvmcache-race'), ov, go_mod(), ['-race'])
    except CheckError as e:
        c.note('without_cache_access', str(e)[-600:])
        exe = None
    if exe:
        files = {}
        for mode, n in (('seq', T(60, 600)), ('sched', T(2500, 40000))):
            rc, o, e = run([exe, mode, str(SEED), str(n)], timeout=300)
            if rc != 0: c.violation('the hash cache failed in %s histories: %s' % (mode, e[-1500:]), {'stderr': e[-6000:]}); continue
            files[mode] = spath(mode + '.ndjson')
            lines = o.splitlines()
            if mode == 'sched': lines = sorted(set(re.sub(r'"id":"\w+"', '"id":"s"', l) for l in lines))
            open(files[mode], 'w').write('\n'.join(lines) + '\n')
        if 'seq' in files:
            t = tlc('LruTrace', view='View', invariants=['Bounded'], env={'TRACES': files['seq']}, heap='8g')
            if not t.ok: raise CheckError(t.out[-3000:])
            c.model(t)
            lines = open(files['seq']).read().splitlines()
            c.traces(len(lines))
            for l in t.msgs:
                m = re.match(r'<<"BAD", (\d+), (\d+), (.*)>>$', l)
                if m:
                    h = json.loads(lines[int(m.group(1)) - 1])
                    c.violation('history %s (capacity %d) of the hash cache departs from the specification at request %s: %s' % (h['id'], h['cap'], m.group(2), m.group(3)), h)
        if 'sched' in files:
            t = tlc('LruLin', invariants=['Bounded'], env={'TRACES': files['sched']}, heap='8g')
            if not t.ok: raise CheckError(t.out[-3000:])
            c.model(t)
            good = {int(m.group(1)) for m in (re.match(r'<<"LIN", (\d+)>>', l) for l in t.msgs) if m}
            lines = open(files['sched']).read().splitlines()
            c.traces(len(lines)); c.note('concurrent_histories', len(lines))
            for i, l in enumerate(lines, 1):
                if i not in good:
                    h = json.loads(l)
                    c.violation('a concurrent history of the hash cache has no linearization: ' + ' '.join('get(%(k)s)=%(r)s made=%(mk)s@[%(inv)s,%(res)s]' % o for o in h['ops']), h)
        for exe2, mode, n in ((race, 'threads', T(3000, 30000)), (exe, 'threads', T(200000, 2000000)), (exe, 'convert', T(2000, 20000)), (race, 'convert', T(300, 3000))):
            rc, o, e = run([exe2, mode, str(SEED), str(n)], timeout=400, env={'GORACE': 'halt_on_error=1 exitcode=66'})
            m = re.search(r'RUNS (\d+)', o)
            if m: c.notes['cache_requests'] = c.notes.get('cache_requests', 0) + int(m.group(1))
            if rc != 0:
                what = 'data race' if 'DATA RACE' in e else 'no progress' if rc is None else 'wrong result' if 'WRONG' in e else 'failure'
                c.violation('%s in the caches (%s): %s' % (what, mode, e[:1500]), {'mode': mode, 'stderr': e[-8000:]})
    # Interpreters with caches, alone, nested and shared by threads.
    cs = sharing_cases(r, T(25, 250)) + G.programs(r, T(80, 1000)) + big_codes(r)
    exe, _ = build_go(c, steps=False)
    for mode in ('exec', 'nested'):
        rec = record(c, exe, cs, mode, 0)
        reports, opened = compare(c, rec)
        if not rec: continue
        differ = outcomes_differ(rec)
        report(c, reports, lambda x: x.case.id in differ)
    race, _ = build_go(c, 'evmrun-race', ['-race'], steps=False)
    rec = record(c, race, cs, 'threads', 8, env={'GORACE': 'halt_on_error=1 exitcode=66'})
    if rec:
        reports, opened = compare(c, rec)
        differ = outcomes_differ(rec)
        report(c, reports, lambda x: x.case.id in differ)
    c.note('cases', len(cs))

def big_codes(r):
    """Codes around the size up to which conversions are cached, in variants."""
    cases = []
    for L in (24575, 24576, 24577, 40000):
        for k in range(3):
            p = Prog().push(L - 6, 2).op('JUMP')
            body = bytes(r.choice([0x58, 0x5b, 0x01]) for _ in range(200)) * (L // 200 + 1)
            code = bytes(p.b) + body[:L - 6 - len(p)] + bytes([0x5b, 0x60, k, 0x58, 0x3d, 0x00])
            cases.append(Case('big%d-%d' % (L, k), code, gas=1000, hashmode=2))
    return cases
