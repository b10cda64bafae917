"""Case generators, one per aspect of the EVM."""
import random
from evmgen import *

REVS = list(range(6))
UN = ['ISZERO', 'NOT']
BIN = ['ADD', 'MUL', 'SUB', 'DIV', 'SDIV', 'MOD', 'SMOD', 'SIGNEXTEND', 'LT', 'GT', 'SLT', 'SGT', 'EQ', 'AND', 'OR', 'XOR', 'BYTE', 'SHL', 'SHR', 'SAR']
TRI = ['ADDMOD', 'MULMOD']

def operands(r, op):
    a, b = word(r), word(r)
    if op in ('SHL', 'SHR', 'SAR') and r.random() < .7: a = r.choice([r.randrange(257), 0, 1, 7, 8, 9, 63, 64, 127, 128, 248, 254, 255, 256, 257, 512, 1 << 32, 1 << 64, 1 << 128, 1 << 200])
    if op in ('BYTE', 'SIGNEXTEND') and r.random() < .7: a = r.choice([r.randrange(34), 0, 30, 31, 32, 255, 256, 1 << 64, (1 << 64) + 3, 1 << 128])
    if op in ('EQ', 'LT', 'GT', 'SLT', 'SGT') and r.random() < .5: b = (a + r.choice([0, 0, 1, -1, 1 << 64, 1 << 128, 1 << 192, 1 << 255])) & M256
    if op in ('DIV', 'MOD', 'SDIV', 'SMOD') and r.random() < .3:
        b = r.choice([0, 1, 2, 3, M256, M256 - 1, 1 << 255, a, r.getrandbits(64) + 1, r.getrandbits(128) + 1])
        if r.random() < .3: a = 1 << 255
    return [a, b]

def arith(r, n):
    """Every arithmetic/logic instruction on edge and random operands; the
    operands sit on top of marker words that must stay."""
    plan = []
    for op in BIN:
        for _ in range(n * (2 if op in ('DIV', 'SDIV', 'MOD', 'SMOD', 'SAR', 'SIGNEXTEND') else 1)): plan.append((op, operands(r, op)))
    for op in UN:
        for _ in range(n // 2): plan.append((op, [word(r)]))
    for op in TRI:
        for _ in range(n): 
            m = r.choice([word(r), word(r), 0, 1, 2, M256, 1 << 255, r.getrandbits(130)])
            plan.append((op, [word(r), word(r), m]))
    for _ in range(n):
        plan.append(('EXP', [word(r), r.choice([0, 1, 2, 3, 5, 16, 31, 255, 256, 257, r.getrandbits(10), r.getrandbits(16)])]))
    for _ in range(max(2, n // 12)): plan.append(('EXP', [word(r) | 1, word(r)]))
    # systematic part: every pair of the small edge set for the trickiest ones
    r.shuffle(plan)
    cases = []
    for i in range(0, len(plan), 12):
        p = Prog()
        for op, args in plan[i:i + 12]: p.do(op, *args)
        cases.append(Case('arith%d' % (i // 12), p, rev=r.choice(REVS), gas=100000))
    return cases

def arith_pairs(r, n):
    """All pairs of a small set of critical operands."""
    crit = [0, 1, 2, 31, 32, 255, 256, 1 << 64, 1 << 128, 1 << 255, (1 << 255) - 1, M256, M256 - 1]
    if n < 50: crit = [0, 1, 31, 256, 1 << 255, M256]
    cases, plan = [], [(op, [a, b]) for op in BIN for a in crit for b in crit]
    for i in range(0, len(plan), 24):
        p = Prog()
        for op, args in plan[i:i + 24]: p.do(op, *args)
        cases.append(Case('pairs%d' % (i // 24), p, rev=5, gas=100000))
    return cases

def packed(plan, ident, per=24, **kw):
    cases = []
    for i in range(0, len(plan), per):
        p = Prog()
        for op, args in plan[i:i + per]: p.do(op, *args)
        cases.append(Case('%s%d' % (ident, i // per), p, **{**dict(rev=5, gas=100000), **kw}))
    return cases

def indices(r, thorough=False):
    """Every shift distance and byte index, on words whose every bit shows."""
    plan = []
    neg = lambda: r.getrandbits(256) | 1 << 255 | 1
    pos = lambda: (r.getrandbits(255) | 1 << 254 | 1) & M256 >> 1
    for n in range(259):
        for op in ('SHL', 'SHR', 'SAR'):
            for v in ([neg(), pos(), M256] if thorough or op == 'SAR' and (n > 250 or n % 64 in (0, 1, 63)) else [neg()] if op == 'SAR' or r.random() < .5 else [pos()]): plan.append((op, [n, v]))
    for n in range(34):
        plan.append(('BYTE', [n, int.from_bytes(bytes(range(0xd0, 0xf0)), 'big')]))
        for v in (int('7f' * 32, 16), int('80' * 32, 16), neg()): plan.append(('SIGNEXTEND', [n, v]))
    return packed(plan, 'indices', 30)

def limbs(r, n):
    """Operands assembled from limbs that are zero, one, full, or random: carries, borrows and quotient digits at limb borders."""
    L = lambda: sum(r.choice([0, 0, 1, (1 << 64) - 1, (1 << 64) - 1, 1 << 63, r.getrandbits(64), (1 << 64) - r.getrandbits(8) - 1, r.getrandbits(32) << 32]) << 64 * i for i in range(4))
    plan = []
    for _ in range(n):
        for op in ('ADD', 'SUB', 'MUL', 'DIV', 'SDIV', 'MOD', 'SMOD', 'LT', 'GT', 'SLT', 'SGT', 'EQ', 'AND', 'OR', 'XOR'): plan.append((op, [L(), L()]))
        for op in TRI: plan.append((op, [L(), L(), L()]))
        x = L()
        for op in ('DIV', 'MOD', 'SDIV', 'SMOD'):
            y = L() >> r.choice([0, 64, 128, 192]) or 1
            q = r.getrandbits(256 - y.bit_length() if y.bit_length() < 256 else 1)
            plan.append((op, [(q * y + r.choice([0, -1, 1, y - 1])) & M256, y]))
        plan.append(('ISZERO', [1 << r.randrange(256)])); plan.append(('NOT', [x]))
    r.shuffle(plan)
    return packed(plan, 'limbs', 24)

def exponents(r):
    """Exponents of every length in bytes, and around the limb borders."""
    es = [(1 << 8 * n) - 1 for n in range(1, 33)] + [1 << 8 * n for n in range(32)] + [0, r.getrandbits(256) | 1 << 255]
    plan = [('EXP', [r.choice([2, 3, 0, 1, M256]) if e.bit_length() > 24 and r.random() < .8 else word(r), e]) for e in es]
    for a in (0, 1, 64, 128, 192):
        for b in (64, 128, 192): plan.append(('EXP', [r.choice([1, M256]), (1 << a) | (1 << b)]))
    return [x for rev in (0, 5) for x in packed(plan, 'exp%d-' % rev, 8, rev=rev)]

def sizes(r, thorough=False):
    """Every instruction paid by size, for the sizes around word borders."""
    cases = []
    ss = sorted(set(list(range(0, 4)) + [k * 32 + d for k in ((1, 2, 3, 7, 8, 16, 32, 33, 64, 100) if not thorough else range(1, 130)) for d in (-1, 0, 1)]))
    for i in range(0, len(ss), 6):
        grp = ss[i:i + 6]
        for name in ['SHA3', 'CALLDATACOPY', 'CODECOPY', 'EXTCODECOPY', 'RETURNDATACOPY', 'MCOPY', 'LOG0', 'LOG1', 'LOG2', 'LOG3', 'LOG4', 'CREATE', 'CREATE2', 'CALL', 'RETURN']:
            if name == 'SHA3' and grp[0] > 600: continue
            p = Prog()
            if name == 'RETURNDATACOPY': p.do('STATICCALL', 100, CONTRACT, 0, 0, 0, 0)
            for n in grp if name != 'RETURN' else grp[-1:]:
                o = r.choice([0, 0, 1, 31, 32])
                if name.startswith('LOG'): p.do(name, o, n, *range(int(name[3])))
                elif name in ('SHA3', 'RETURN'): p.do(name, o, n)
                elif name == 'EXTCODECOPY': p.do(name, CONTRACT, o, 0, n)
                elif name == 'CREATE': p.do(name, 0, o, n)
                elif name == 'CREATE2': p.do(name, 0, o, n, 5)
                elif name == 'CALL': p.do(name, 100, EOA, 0, o, n, r.choice([0, 40]), n)
                else: p.do(name, o, 0, n)
            cases.append(Case('sizes-%s-%d' % (name, i), p, rev=r.choice([0, 1, 2, 3, 4, 5]) if name not in ('MCOPY', 'CREATE', 'CREATE2') else r.choice([4, 5]) if name != 'MCOPY' else 5,
                              gas=2000000, calls=[dict(gas=0, out=bytes(range(256)) * 20 if name == 'RETURNDATACOPY' else b'', st=0)] + [dict(gas=0)] * 6))
    return cases

# --- stack -------------------------------------------------------------------------
ALLOPS = sorted(NAMES)
def stack_bounds(r, thorough):
    """Every instruction at the stack heights around its limits, from a given stack."""
    cases = []
    for v in ALLOPS:
        name = NAMES[v]
        pops = POPS.get(name, 0)
        hs = {0, 1, pops - 1, pops, pops + 1, 2, 3, 1023, 1024} if not thorough else set(range(0, 19)) | {1000, 1021, 1022, 1023, 1024}
        if name.startswith(('DUP', 'SWAP')): hs |= {15, 16, 17, 18}
        for h in sorted(x for x in hs if x >= 0):
            p = Prog().op(v)
            if 0x60 <= v <= 0x7f: p.raw(range(1, v - 0x5f + 1))
            p.op('PC')
            st = [r.choice([0, 0, 0, 1, 2, 33]) if i < h - 8 or h > 20 else r.choice([0, 1, 2, 5]) for i in range(h)]
            cases.append(Case('stack-%s-%d' % (name, h), p, rev=5, gas=10000000, stack=st, calls=[dict(gas=100, out=b'abc')] * 2))
    return cases

def stack_full(r):
    """Executions that fill the stack to its limit and go one instruction beyond."""
    cases = []
    for name in ['PUSH0', 'PUSH1', 'PUSH32', 'DUP1', 'DUP16', 'SWAP16', 'PC', 'GAS', 'CALLER', 'POP', 'ADD', 'MSTORE', 'CALLDATASIZE', 'RETURNDATASIZE', 'SELFBALANCE', 'JUMPDEST', 'MLOAD', 'ISZERO']:
        for h in (1023, 1024):
            p = Prog().op(*(['PUSH0', 'PC'] * 512)[:h])
            p.op(name)
            if name.startswith('PUSH') and name != 'PUSH0': p.raw(range(1, int(name[4:]) + 1))
            cases.append(Case('full-%s-%d' % (name, h), p, rev=5, gas=1000000))
    return cases

def stack_ops(r, n):
    """Random PUSH/DUP/SWAP/POP programs with distinct words."""
    cases = []
    for i in range(n):
        p = Prog()
        h = 0
        for _ in range(r.randrange(10, 60)):
            k = r.random()
            if k < .35 or h == 0:
                w = r.randrange(1, 33)
                p.push(r.getrandbits(8 * w), w); h += 1
            elif k < .4: p.op('PUSH0'); h += 1
            elif k < .65: d = r.randrange(1, min(h, 16) + 1); p.op('DUP%d' % d); h += 1
            elif k < .9 and h >= 2: d = r.randrange(1, min(h - 1, 16) + 1); p.op('SWAP%d' % d)
            elif h: p.op('POP'); h -= 1
        # every PUSH as the last instruction of the code with missing data
        if r.random() < .5:
            w = r.randrange(1, 33)
            p.op(0x5f + w); p.raw([r.randrange(1, 256) for _ in range(r.randrange(0, w + 1))])
        cases.append(Case('stackops%d' % i, p, rev=5, gas=100000))
    for w in range(1, 33):
        p = Prog().op(0x5f + w).raw(range(1, w)); cases.append(Case('trunc%d' % w, p))
        p = Prog().op(0x5f + w); cases.append(Case('trunc0-%d' % w, p))
        p = Prog().op(0x5f + w).raw(range(200, 200 + w)).op('DUP1', 'POP'); cases.append(Case('pushall%d' % w, p))
    p = Prog()
    for i in range(17): p.push(i + 1)
    for d in range(1, 17): p.op('SWAP%d' % d, 'DUP%d' % d)
    cases.append(Case('alldup', p))
    return cases

# --- memory -----------------------------------------------------------------------
HUGE = [1 << 32, (1 << 32) - 1, 1 << 63, (1 << 63) - 1, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, (1 << 64) - 31, (1 << 64) - 32, 1 << 128, M256, M256 - 31, 1 << 255, (1 << 61), (1 << 59), (1 << 69) - 32,
        (1 << 38), (1 << 40)]
SIZES = [0, 0, 1, 2, 31, 32, 33, 63, 64, 65, 96, 100]
def off(r): return r.choice([0, 0, 1, 5, 31, 32, 33, 64, 95, 96, 100, r.randrange(200), r.randrange(1000)])
def memargs(r, name, hi=.06):
    """Operands of an instruction that touches memory."""
    o, n = off(r), r.choice(SIZES)
    if r.random() < hi:
        k = r.randrange(3)
        if k == 0: o, n = r.choice(HUGE), r.choice([0, 0, 1, 32])
        elif k == 1: o, n = r.choice([0, 1, 32]), r.choice(HUGE)
        else: o, n = r.choice(HUGE), r.choice(HUGE)
    src = r.choice([off(r), off(r), r.choice([0, 1, 32, 199, 200, 201]), r.choice(HUGE) if r.random() < .3 else 0])
    if name == 'MSTORE': return [o, word(r)]
    if name == 'MSTORE8': return [o, word(r)]
    if name == 'MLOAD': return [o]
    if name in ('CALLDATACOPY', 'CODECOPY'): return [o, src, n]
    if name == 'RETURNDATACOPY': return [o, src if r.random() < .2 else r.choice([0, 1, 4]), n if r.random() < .2 else r.choice([0, 1, 16, 30])]
    if name == 'MCOPY': return [o, src if src < 5000 or r.random() < .1 else off(r), n]
    if name == 'EXTCODECOPY': return [r.choice(ADDRS) | (r.getrandbits(96) << 160 if r.random() < .3 else 0), o, src, n]
    if name in ('SHA3', 'RETURN', 'REVERT'): return [o, n]
    if name.startswith('LOG'): return [o, n] + [word(r) for _ in range(int(name[3]))]
MEMOPS = ['MSTORE', 'MSTORE', 'MSTORE', 'MSTORE8', 'MSTORE8', 'MLOAD', 'MLOAD', 'CALLDATACOPY', 'CODECOPY', 'RETURNDATACOPY', 'MCOPY', 'MCOPY', 'MCOPY',
          'EXTCODECOPY', 'SHA3', 'LOG1', 'MSIZE', 'CALLOUT']
def memory(r, n, ops=MEMOPS, hi=.06, ident='mem'):
    cases = []
    for i in range(n):
        p = Prog()
        calls = [dict(gas=10, out=bytes(r.randrange(1, 256) for _ in range(r.choice([0, 5, 34, 70]))), st=r.choice([0, 0, 1])) for _ in range(4)]
        p.do('STATICCALL', 100, CONTRACT, 0, 0, r.choice([0, 3]), r.choice([0, 7, 40]))
        if r.random() < .5:   # fill some memory with recognisable bytes
            for j in range(r.randrange(1, 6)): p.do('MSTORE', 32 * j, int.from_bytes(bytes(range(32 * j + 1, 32 * j + 33)), 'big'))
        for _ in range(r.randrange(3, 14)):
            name = r.choice(ops)
            if name == 'MSIZE': p.op('MSIZE')
            elif name == 'CALLOUT': p.do('CALL', 50, r.choice(ADDRS), 0, off(r), r.choice(SIZES), off(r), r.choice(SIZES))
            else: p.do(name, *memargs(r, name, hi))
            if r.random() < .2: p.op('MSIZE')
        p.op('MSIZE')
        if r.random() < .5: p.do(r.choice(['RETURN', 'RETURN', 'REVERT']), *memargs(r, 'RETURN', .05))
        cases.append(Case('%s%d' % (ident, i), p, rev=5 if r.random() < .8 else r.choice(REVS), gas=r.choice([3000000, 3000000, 100000]),
                          input=bytes(r.randrange(256) for _ in range(r.choice([0, 1, 31, 32, 33, 70]))), calls=calls))
    return cases

def memory_edges(r):
    """Each memory instruction at the critical offset and size combinations."""
    cases = []
    for name in ['MSTORE', 'MSTORE8', 'MLOAD', 'CALLDATACOPY', 'CODECOPY', 'MCOPY', 'EXTCODECOPY', 'SHA3', 'LOG0', 'LOG4', 'RETURN', 'REVERT', 'RETURNDATACOPY']:
        for o in [0, 31, 32, 1023, 1 << 16, 1 << 22] + HUGE:
            for n in ([32] if name in ('MSTORE', 'MSTORE8', 'MLOAD') else [0, 1, 33, 1 << 20] + HUGE[1:8:2] + [M256]):
                if o < 1 << 23 and n < 1 << 23 and o + n > 100000 and name in ('RETURN', 'REVERT', 'SHA3', 'MCOPY', 'LOG0', 'LOG4', 'CALLDATACOPY', 'CODECOPY', 'EXTCODECOPY'):
                    gas = 20000       # too expensive to materialise
                else: gas = r.choice([30000, 300000])
                if n >= 1 << 20: gas = min(gas, 1000000)
                p = Prog()
                p.do('MSTORE', 0, 0x0102030405060708)
                srcs = [0] if name not in ('MCOPY',) else [0, r.choice(HUGE)]
                for src in srcs[:1] if r.random() < .7 else srcs[-1:]:
                    a = {'MSTORE': [o, 5], 'MSTORE8': [o, 5], 'MLOAD': [o], 'CALLDATACOPY': [o, src, n], 'CODECOPY': [o, src, n], 'MCOPY': [o, src, n],
                         'EXTCODECOPY': [CONTRACT, o, src, n], 'RETURNDATACOPY': [o, 0, n], 'LOG0': [o, n], 'LOG4': [o, n, 1, 2, 3, 4]}.get(name, [o, n])
                    p.do(name, *a)
                p.op('MSIZE')
                cases.append(Case('memedge-%s-%x-%x' % (name, o, n), p, gas=gas, input=b'xyz'))
    # MCOPY with the roles exchanged
    for o in HUGE[:12]:
        for n in [0, 1, 32]:
            cases.append(Case('mcopysrc-%x-%d' % (o, n), Prog().do('MSTORE', 0, 77).do('MCOPY', 0, o, n).op('MSIZE'), gas=300000))
    # overlapping copies
    for d, s, n in [(0, 1, 40), (1, 0, 40), (0, 32, 64), (32, 0, 64), (5, 5, 20), (0, 8, 3), (31, 33, 70), (33, 31, 70), (0, 100, 32), (100, 0, 32), (200, 10, 100)]:
        p = Prog()
        for j in range(4): p.do('MSTORE', 32 * j, int.from_bytes(bytes(range(32 * j + 1, 32 * j + 33)), 'big'))
        p.do('MCOPY', d, s, n).op('MSIZE').do('MLOAD', d)
        cases.append(Case('overlap-%d-%d-%d' % (d, s, n), p))
    return cases

# --- control flow --------------------------------------------------------------------
def jumps(r, n):
    cases = []
    for i in range(n):
        body = bytearray()
        for _ in range(r.randrange(4, 60)):
            k = r.random()
            if k < .3: body.append(0x5b)
            elif k < .5: body.append(r.choice([0x60, 0x61, 0x62, 0x63, 0x6f, 0x7e, 0x7f]))
            elif k < .6: body.append(r.choice([0x56, 0x57]))
            elif k < .7: body += bytes([0x60, r.randrange(80)])
            elif k < .8: body.append(r.choice([0x58, 0x5f, 0x50, 0x80]))
            else: body.append(r.randrange(256) if r.random() < .2 else 0x5b)
        # an entry jump to every kind of destination
        for j in range(3):
            head = Prog()
            cond = r.random() < .5
            L = 3 if not cond else 5
            t = r.randrange(0, len(body) + L + 3)
            big = r.random()
            dest = t if big < .8 else t + r.choice([1 << 8, 1 << 16, 1 << 32, 1 << 63, 1 << 64, 1 << 128, 1 << 192, 1 << 255])
            w = max(1, (dest.bit_length() + 7) // 8)
            if cond: head.push(r.choice([0, 1, 2, 1 << 64, 1 << 128, 1 << 192, 1 << 255, M256])); head.push(dest, w).op('JUMPI')
            else: head.push(dest, w).op('JUMP')
            cases.append(Case('jump%d-%d' % (i, j), bytes(head.b + body), gas=r.choice([100, 300, 1000]), limit=400))
    return cases

def jump_all(r, n):
    """From one program, jumps to every position (and just beyond)."""
    cases = []
    for i in range(n):
        body = bytes(r.choice([0x5b, 0x5b, 0x60, 0x61, 0x63, 0x7f, 0x7e, 0x00, 0x58, 0x5f]) for _ in range(r.randrange(8, 50)))
        for t in range(0, len(body) + 8):
            p = Prog().push(t, 2).op('JUMP').raw(body)
            cases.append(Case('jumpall%d-%d' % (i, t), p, gas=200, limit=100))
    for big in [0, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 63, 1 << 64, 1 << 65, 1 << 127, 1 << 128, 1 << 191, 1 << 192, 1 << 255]:
        for cond in (None, 0, 1, 1 << 64, 1 << 128, 1 << 192):
            p = Prog()
            if cond is not None: p.push(cond, 32)
            p.push(big + 80, 32).op('JUMP' if cond is None else 'JUMPI').raw(b'\x58' * (80 - len(p))).op('JUMPDEST', 'PC', 'STOP')
            cases.append(Case('jumpbig-%x-%s' % (big, cond), p, gas=500))
    # loops
    for k in (1, 2, 10, 50):
        p = Prog().push(k).op('JUMPDEST').push(1).op('SWAP1', 'SUB', 'DUP1').push(2, 1).op('JUMPI')
        cases.append(Case('loop%d' % k, p, gas=100000))
        cases.append(Case('looposg%d' % k, p, gas=20 * k))
    # code longer than 64 KB with jumps over 16 bits
    big = bytearray(b'\x5b' * 70000)
    for t in (65535, 65536, 65537, 69999, 70000, 4464):
        p = Prog().push(t, 3).op('JUMP')
        code = bytearray(p.b + b'\x00' * (70000 - len(p)))
        if t != 4464 and t < 70000: code[t] = 0x5b
        code[69999] = 0x5b
        code[10] = 0x5b
        cases.append(Case('longcode-%d' % t, bytes(code), gas=1000))
    return cases

def landings(r, n):
    """Taken jumps with every amount of gas around what the jump and what follows it need."""
    tails = [[], ['STOP'], ['JUMPDEST'], ['JUMPDEST', 'JUMPDEST', 'STOP'], ['PC', 'POP'], ['ADD'], ['INVALID'], [0x0c], ['GAS', 'POP', 'STOP'], ['MSIZE'], ['RETURN']]
    cases = []
    for cond in (None, 0, 1, 1 << 255):
        for deep in (False, True):
            for k, tail in enumerate(tails):
                p = Prog()
                if cond is not None: p.push(cond, 1 if cond < 2 else 32)
                t = len(p) + 3 + (r.randrange(4) if deep else 0)
                p.push(t, 1).op('JUMP' if cond is None else 'JUMPI').raw(b'\x00' * (t - len(p))).op('JUMPDEST', *tail)
                need = 3 + 8 + 1 if cond is None else 3 + 3 + 10 + 1
                for g in r.sample(range(need - 13, need + 6), 4) + [need - 2, need - 1, need, need + 1]:
                    cases.append(Case('land-%s-%d-%d-%d-%d' % (cond, deep, k, g, len(cases)), p, gas=max(g, 0), limit=40))
    return r.sample(cases, min(n, len(cases)))

# --- instruction availability ------------------------------------------------------------
def opcodes_by_revision(r):
    cases = []
    for v in range(256):
        for rev in REVS:
            p = Prog()
            for x in (5, 4, 3, 2, 1, 0x20, 0): p.push(x)
            if v in (0x56, 0x57): p = Prog().push(1).push(5 if v == 0x57 else 5).raw(bytes([v])).op('JUMPDEST')
            else:
                p.raw([v])
                if 0x60 <= v <= 0x7f: p.raw(range(1, v - 0x5e))
            p.op('PC')
            cases.append(Case('op-%02x-%d' % (v, rev), p, rev=rev, gas=500000, calls=[dict(gas=1000, out=b'result')], slots={0: (7, 7)}, trans={0: 3}, skip=2 if v in (0x56, 0x57) else 7))
    return cases

# --- storage ---------------------------------------------------------------------------------
VALS = [0, 1, 2, M256]
def storage_triples(r, both=True):
    """Original/current/new value in every combination, cold and warm, in every revision."""
    cases = []
    for rev in REVS:
        for o in (0, 1, 2):
            for c in (0, 1, 2):
                for warm in (False, True):
                    if rev >= 1 and o != c and not warm: continue
                    if rev == 0 and warm: continue
                    p = Prog()
                    for v in (0, 1, 2, 3):
                        q = Prog().do('SSTORE', 9, v).do('SLOAD', 9)
                        cases.append(Case('sstore-%d-%d%d%d-%d' % (rev, o, c, v, warm), q, rev=rev, gas=60000, slots={9: (o, c)}, ws=[9] if warm else []))
    return cases

def storage_random(r, n):
    cases = []
    for i in range(n):
        rev = r.choice(REVS)
        keys = [r.choice([0, 1, 1 << 255, M256, r.getrandbits(256)]) for _ in range(3)]
        slots, ws = {}, []
        for k in keys:
            if r.random() < .8:
                o = r.choice(VALS[:3]); c = o if r.random() < .6 else r.choice(VALS)
                slots[k] = (o, c)
                if o != c or r.random() < .2: ws.append(k)
        p = Prog()
        for _ in range(r.randrange(3, 12)):
            k = r.choice(keys)
            x = r.random()
            if x < .45: p.do('SSTORE', k, r.choice(VALS))
            elif x < .7: p.do('SLOAD', k)
            elif x < .78 and rev == 5: p.do('TSTORE', k, r.choice(VALS))
            elif x < .86 and rev == 5: p.do('TLOAD', k)
            elif x < .94: p.do('CALL', 1000, CONTRACT, 0, 0, 0, 0, 0)
            else: p.op('PC', 'POP')
        calls = [dict(gas=r.choice([0, 500]), ref=r.choice([0, 100, -50, 4800, -15000]) if True else 0, st=0,
                      writes=[(r.choice(keys), r.choice(VALS))] if r.random() < .5 else []) for _ in range(5)]
        end = r.random()
        if end < .1: p.do('REVERT', 0, 0)
        elif end < .2: p.op('INVALID')
        elif end < .35: p.do('SELFDESTRUCT', r.choice(ADDRS))
        cases.append(Case('stor%d' % i, p, rev=rev, gas=r.choice([400000, 400000, 400000, 30000, 2301, 2300, 7000, r.randrange(2000, 30000)]), slots=slots, ws=ws, calls=calls,
                          trans={k: r.choice(VALS) for k in keys[:1]} if rev == 5 else {}))
    # the gas sentry of SSTORE
    for rev in REVS:
        for g in (2299, 2300, 2301, 2302):
            for v in (1, 2):
                p = Prog().do('SSTORE', 1, v)
                cases.append(Case('sentry-%d-%d-%d' % (rev, g, v), p, rev=rev, gas=g + 6, slots={1: (1, 1)}, ws=[1]))
    return cases

# --- access lists --------------------------------------------------------------------------------
def access(r, n):
    cases = []
    for i in range(n):
        rev = r.choice([0, 1, 1, 2, 3, 4, 5, 5, 5])
        pool = r.sample(ADDRS, 4)
        wa = [a for a in pool if r.random() < .3]
        if r.random() < .8: wa.append(SELF)
        keys = [0, 1, M256]
        p = Prog()
        for _ in range(r.randrange(4, 12)):
            a = r.choice(pool)
            if r.random() < .25: a |= r.getrandbits(96) << 160
            op = r.choice(['BALANCE', 'EXTCODESIZE', 'EXTCODEHASH', 'EXTCODECOPY', 'CALL', 'CALLCODE', 'DELEGATECALL', 'STATICCALL', 'SLOAD', 'SSTORE', 'CALLV'])
            if op in ('BALANCE', 'EXTCODESIZE', 'EXTCODEHASH'): p.do(op, a)
            elif op == 'EXTCODECOPY': p.do(op, a, 0, r.choice([0, 100, 1 << 65]), r.choice([0, 0, 20]))
            elif op == 'CALL': p.do('CALL', 100, a, 0, 0, 0, 0, 0)
            elif op == 'CALLV': p.do('CALL', 100, a, r.choice([1, 100000]), 0, 0, 0, 0)
            elif op == 'CALLCODE': p.do('CALLCODE', 100, a, 0, 0, 0, 0, 0)
            elif op in ('DELEGATECALL', 'STATICCALL'): p.do(op, 100, a, 0, 0, 0, 0)
            elif op == 'SLOAD': p.do('SLOAD', r.choice(keys))
            else: p.do('SSTORE', r.choice(keys), r.choice([0, 1, 2]))
        if r.random() < .3: p.do('SELFDESTRUCT', r.choice(pool))
        calls = [dict(gas=r.choice([0, 50]), st=r.choice([0, 0, 1, 2]), writes=[(r.choice(keys), 5)] if r.random() < .3 else []) for _ in range(10)]
        cases.append(Case('access%d' % i, p, rev=rev, gas=500000, wa=wa, ws=[k for k in keys if r.random() < .3], calls=calls,
                          slots={0: (1, 1)}, depth=r.choice([0, 1, 5])))
    return cases

# --- read-only execution --------------------------------------------------------------------------
def static_mode(r, n):
    cases = []
    writes = [('SSTORE', [1, 2]), ('TSTORE', [1, 2]), ('LOG0', [0, 0]), ('LOG1', [0, 3, 1]), ('LOG2', [0, 3, 1, 2]), ('LOG3', [0, 3, 1, 2, 3]),
              ('LOG4', [0, 3, 1, 2, 3, 4]), ('CREATE', [0, 0, 0]), ('CREATE', [1, 0, 2]), ('CREATE2', [0, 0, 0, 0]), ('SELFDESTRUCT', [EOA]),
              ('CALL', [1000, CONTRACT, 1, 0, 0, 0, 0]), ('CALL', [1000, GHOST, M256, 0, 0, 0, 0]), ('CALL', [0, SELF, 1 << 128, 0, 0, 0, 0]), ('SSTORE', [1, 1]),
              ('CALL', [1000, CONTRACT, 1 << 64, 0, 0, 0, 0])]
    ok = [('CALL', [1000, CONTRACT, 0, 0, 0, 0, 0]), ('CALLCODE', [1000, CONTRACT, 1, 0, 0, 0, 0]), ('CALLCODE', [1000, CONTRACT, 0, 0, 0, 0, 0]),
          ('DELEGATECALL', [1000, CONTRACT, 0, 0, 0, 0]), ('STATICCALL', [1000, CONTRACT, 0, 0, 0, 0]), ('SLOAD', [1]), ('TLOAD', [1]), ('BALANCE', [EOA]),
          ('MSTORE', [0, 1]), ('SHA3', [0, 3])]
    for rev in REVS:
        for name, args in writes + ok:
            for st in (True, False):
                p = Prog().do('DELEGATECALL', 100, CONTRACT, 0, 0, 0, 0).do(name, *args).op('PC').do('STATICCALL', 100, CONTRACT, 0, 0, 0, 0).do(name, *args)
                cases.append(Case('static-%d-%s-%d-%d' % (rev, name, len(cases), st), p, rev=rev, static=st, gas=400000, calls=[dict(gas=10)] * 4, slots={1: (1, 1)}, depth=r.choice([0, 3])))
            # also when the stack or the gas does not suffice
            p = Prog()
            for a in reversed(args[1:]): p.push(a)
            p.op(name)
            cases.append(Case('static-short-%d-%s-%d' % (rev, name, len(cases)), p, rev=rev, static=True, gas=r.choice([30, 400000])))
    for i in range(n):
        p = Prog()
        for _ in range(r.randrange(2, 8)):
            name, args = r.choice(ok if r.random() < .75 else writes)
            p.do(name, *args)
        cases.append(Case('staticmix%d' % i, p, rev=r.choice(REVS), static=True, gas=r.choice([300000, 20000]), calls=[dict(gas=10, st=r.choice([0, 1, 2]), out=b'xy')] * 3, depth=r.choice([0, 7])))
    return cases

# --- calls ------------------------------------------------------------------------------------------
M63 = (1 << 63) - 1
CALLGAS = [0, 1, 2299, 2300, 5000, 1 << 30, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, 1 << 128, M256]
def calls(r, n):
    cases = []
    for i in range(n):
        rev = r.choice(REVS)
        gas = r.choice([1000000, 1000000, 300000, 50000, 40000, 12000, r.randrange(700, 60000), 1 << 33, (1 << 45) + 12345, (1 << 59) + 777, (1 << 62) + 99, M63])
        huge = HUGE if gas < 1 << 30 else [x for x in HUGE if x >= 1 << 48]
        p = Prog()
        for j in range(r.randrange(0, 3)): p.do('MSTORE', 32 * j, r.getrandbits(256))
        scripts = []
        for _ in range(r.randrange(1, 4)):
            name = r.choice(['CALL', 'CALL', 'CALLCODE', 'DELEGATECALL', 'STATICCALL'])
            to = r.choice(ADDRS) | (r.getrandbits(96) << 160 if r.random() < .2 else 0)
            want = r.choice(CALLGAS) if r.random() < .6 else r.randrange(200000)
            val = r.choice([0, 0, 0, 1, 5, 1000, 1001, 1 << 64, 1 << 128, M256])
            io = [off(r), r.choice(SIZES), off(r), r.choice(SIZES)]
            if r.random() < .08: io[r.randrange(4)] = r.choice(huge)
            args = [want, to] + ([val] if name in ('CALL', 'CALLCODE') else []) + io
            p.do(name, *args)
            p.op('RETURNDATASIZE')
            if r.random() < .6: p.op('GAS')
            if r.random() < .4: p.op('SELFBALANCE').do('BALANCE', to)
            if r.random() < .4: p.do('RETURNDATACOPY', off(r), r.choice([0, 0, 1]), r.choice([0, 1, 4, 32]))
            if r.random() < .2: p.do('MLOAD', off(r))
            scripts.append(dict(st=r.choice([0, 0, 0, 1, 2]), gas=r.choice([0, 1, 100, 2300, 10000, 1 << 29, 1 << 40, M63]), ref=r.choice([0, 0, 0, 100, -20, 4800]),
                                out=bytes(r.randrange(256) for _ in range(r.choice([0, 0, 1, 4, 31, 32, 33, 100])))))
            if scripts[-1]['st'] == 2: scripts[-1].update(gas=0, out=b'', ref=0)
            if scripts[-1]['st'] == 1: scripts[-1].update(ref=0)
        end = r.random()
        if end < .3: p.do('RETURN', 0, 64)
        elif end < .4: p.do('REVERT', 0, 33)
        case = Case('call%d' % i, p, rev=rev, gas=gas, value=r.choice([0, 7, 1 << 200]), calls=scripts, depth=r.choice([0, 1, 1000, 1023, 1024]),
                    static=r.random() < .15, wa=[SELF] + [a for a in ADDRS if r.random() < .4], env=dict(self=SELF))
        cases.append(case)
    return [c for c in cases if not (c.gas >= 1 << 30 and has_mid_memory(c))]

def has_mid_memory(c):
    """Whether the code pushes a value that as memory size would be neither small nor unaffordable."""
    i = 0
    while i < len(c.code):
        v = c.code[i]
        if 0x60 <= v <= 0x7f:
            w = v - 0x5f
            x = int.from_bytes(c.code[i + 1:i + 1 + w].ljust(w, b'\0'), 'big')
            if 4096 < x < 1 << 48 and x not in CALLGAS: return True
            i += w
        i += 1
    return False

def call_value_matrix(r):
    """Every call kind x revision x value x target x temperature, with just enough gas, one less, and plenty."""
    cases = []
    for rev in REVS:
        for name in ('CALL', 'CALLCODE', 'DELEGATECALL', 'STATICCALL'):
            for val in ((0, 1, 1000, 1001) if name in ('CALL', 'CALLCODE') else (0,)):
                for to in (CONTRACT, GHOST, EMPTY):
                    for warm in ((False, True) if rev else (False,)):
                        args = [60000, to] + ([val] if name in ('CALL', 'CALLCODE') else []) + [0, 4, 2, 40]
                        p = Prog().do(name, *args).op('GAS', 'SELFBALANCE', 'RETURNDATASIZE')
                        base = 21 + (9 if True else 0)
                        for gas in (1000000, r.choice([700, 2600, 9000, 9700, 34700, 36600, 11600]) + r.randrange(20, 40)):
                            cases.append(Case('cm-%d-%s-%x-%x-%d-%d' % (rev, name, val, to & 0xff, warm, gas), p, rev=rev, gas=gas, wa=[SELF] + ([to] if warm else []),
                                              calls=[dict(st=r.choice([0, 0, 1, 2]), gas=r.choice([0, 3, 100000]), out=b'0123456789')], value=3))
    for c in cases:
        for x in c.calls:
            if x['st'] == 2: x.update(gas=0, out=b'')
    return cases

def creates(r, n):
    cases = []
    for i in range(n):
        rev = r.choice(REVS)
        gas = r.choice([1000000, 1000000, 100000, 64000, 32100, r.randrange(32000, 80000), (1 << 45) + 5, M63])
        huge = HUGE if gas < 1 << 30 else [x for x in HUGE if x >= 1 << 48]
        p = Prog()
        for j in range(r.randrange(0, 3)): p.do('MSTORE', 32 * j, r.getrandbits(256))
        if r.random() < .5: p.do('CALL', 100, CONTRACT, 0, 0, 0, 0, 0)
        scripts = [dict(st=0, gas=10, out=b'previous')]
        if len(p) == 0 or r.random() < .5: scripts = []
        for _ in range(r.randrange(1, 4)):
            name = r.choice(['CREATE', 'CREATE2'])
            val = r.choice([0, 0, 1, 1000, 1001, 1 << 64, M256])
            o, s = off(r), r.choice(SIZES)
            if r.random() < .15: s = r.choice([49151, 49152, 49153, 49120, 49184, 24576, 65536])
            if r.random() < .05: s = r.choice(huge)
            if r.random() < .05: o = r.choice(huge)
            p.do(name, *([val, o, s] + ([word(r)] if name == 'CREATE2' else [])))
            p.op('RETURNDATASIZE', 'GAS')
            if r.random() < .4: p.op('SELFBALANCE')
            scripts.append(dict(st=r.choice([0, 0, 1, 2]), gas=r.choice([0, 1, 100, 10000, 1 << 40, M63]), ref=r.choice([0, 0, 100, -20]), addr=r.getrandbits(160),
                                out=bytes(r.randrange(256) for _ in range(r.choice([0, 1, 33])))))
            if scripts[-1]['st'] == 2: scripts[-1].update(gas=0, out=b'', ref=0)
            if scripts[-1]['st'] == 1: scripts[-1].update(ref=0)
        cases.append(Case('create%d' % i, p, rev=rev, gas=gas, calls=scripts, depth=r.choice([0, 1, 1023, 1024]), static=r.random() < .07))
    for rev in REVS:
        for name in ('CREATE', 'CREATE2'):
            for s in (0, 1, 31, 32, 33, 49151, 49152, 49153, 98304, 1 << 64, M256):
                p = Prog().do(name, *([0, 0, s] + ([5] if name == 'CREATE2' else []))).op('GAS')
                cases.append(Case('init-%d-%s-%x' % (rev, name, s), p, rev=rev, gas=200000, calls=[dict(gas=1000, addr=0x77)]))
    return [c for c in cases if not (c.gas >= 1 << 30 and has_mid_memory(c))]

# --- environment and data ------------------------------------------------------------------------------
def environment(r, n):
    cases = []
    simple = ['ADDRESS', 'ORIGIN', 'CALLER', 'CALLVALUE', 'CALLDATASIZE', 'CODESIZE', 'GASPRICE', 'RETURNDATASIZE', 'COINBASE', 'TIMESTAMP', 'NUMBER',
              'PREVRANDAO', 'GASLIMIT', 'CHAINID', 'SELFBALANCE', 'BASEFEE', 'BLOBBASEFEE', 'PC', 'MSIZE', 'GAS']
    for i in range(n):
        a160 = lambda: r.choice([r.getrandbits(160), 0, (1 << 160) - 1, 1])
        i63 = lambda: r.choice([0, 1, 255, 256, 257, 1000, (1 << 63) - 1, r.getrandbits(63), r.getrandbits(40)])
        self = r.choice([SELF, r.getrandbits(160)])
        num = i63()
        env = dict(self=self, sender=a160(), origin=a160(), coinbase=a160(), value=word(r), gasprice=word(r), number=num, timestamp=i63(), gaslimit=i63(),
                   prevrandao=word(r), chainid=word(r), basefee=word(r), blobbasefee=word(r))
        inp = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 31, 32, 33, 64, 100])))
        p = Prog()
        rev = 5 if r.random() < .7 else r.choice(REVS)
        ops = [o for o in simple if rev >= 2 or o != 'BASEFEE']
        ops = [o for o in ops if rev == 5 or o != 'BLOBBASEFEE']
        r.shuffle(ops)
        p.op(*ops[:r.randrange(4, 16)])
        p.do('STATICCALL', 1000, CONTRACT, 0, 0, 0, 0)
        out = bytes(r.randrange(256) for _ in range(r.choice([0, 5, 32, 40])))
        for _ in range(r.randrange(4, 12)):
            o = r.choice(['CALLDATALOAD', 'CALLDATACOPY', 'CODECOPY', 'EXTCODECOPY', 'RETURNDATACOPY', 'BLOCKHASH', 'BLOBHASH', 'EXTCODESIZE', 'EXTCODEHASH', 'BALANCE', 'LOG', 'RETURNDATASIZE', 'SHA3'])
            data = r.choice([0, 1, len(inp) - 1, len(inp), len(inp) + 1, len(out), len(out) + 1, 31, 32, 33, 199, 200, 201]) if r.random() < .85 else r.choice(HUGE)
            data &= M256
            if o == 'CALLDATALOAD': p.do(o, data)
            elif o in ('CALLDATACOPY', 'CODECOPY'): p.do(o, off(r), data, r.choice([0, 1, 32, 40]))
            elif o == 'EXTCODECOPY': p.do(o, r.choice(ADDRS), off(r), data, r.choice([0, 1, 32, 40]))
            elif o == 'RETURNDATACOPY':
                n1 = r.randrange(0, len(out) + 1); n0 = r.randrange(0, n1 + 1)
                if r.random() < .9: p.do(o, off(r), n0, n1 - n0)
                else: p.do(o, 0, *r.choice([(len(out), 1), (len(out) + 1, 0), (M256, 1), (M256, 0), (1 << 64, 0), (0, len(out) + 1), (M256, 2), (M256 - 3, 4), (1 << 64, (1 << 256) - (1 << 64))]))
            elif o == 'BLOCKHASH': p.do(o, r.choice([num, num + 1, num - 1, num - 255, num - 256, num - 257, 0, 1, 1 << 63, 1 << 64, (1 << 64) + num - 1, M256, num + (1 << 64) - 1]) & M256)
            elif o == 'BLOBHASH' and rev == 5: p.do(o, r.choice([0, 1, 2, 3, 4, 1 << 32, 1 << 64, (1 << 64) + 1, M256]))
            elif o in ('EXTCODESIZE', 'EXTCODEHASH', 'BALANCE'): p.do(o, r.choice(ADDRS + [self, env['sender']]) | (r.getrandbits(96) << 160 if r.random() < .3 else 0))
            elif o == 'LOG':
                t = r.randrange(5); p.do('LOG%d' % t, off(r), r.choice([0, 1, 33]), *[word(r) for _ in range(t)])
            elif o == 'SHA3': p.do('SHA3', off(r), r.choice([0, 1, 32, 64, 33]))
            else: p.op('RETURNDATASIZE')
        accts = {}
        if self != SELF: accts[self] = (word(r), b'abc', 5, True)
        cases.append(Case('env%d' % i, p, rev=rev, gas=3000000, input=inp, env=env, value=env['value'], accts=accts, calls=[dict(gas=10, out=out)],
                          blobs=[word(r) for _ in range(r.choice([0, 1, 3]))], depth=r.choice([0, 2])))
    return cases

def hashes(r, n):
    cases = []
    for i in range(n):
        p = Prog()
        for j in range(6): p.do('MSTORE', 32 * j, r.getrandbits(256))
        for _ in range(4): p.do('SHA3', r.randrange(0, 70), r.choice([0, 1, 31, 32, 33, 64, 65, 100, 135, 136, 137]))
        cases.append(Case('sha%d' % i, p, gas=100000))
    return cases

# --- whole programs -----------------------------------------------------------------------------------
def program(r, size=None):
    """A random well-formed program using every kind of instruction."""
    p = Prog()
    n = size or r.randrange(4, 18)
    for _ in range(n):
        k = r.random()
        if k < .2: op = r.choice(BIN); p.do(op, *operands(r, op)); 
        elif k < .25: p.do(r.choice(TRI), word(r), word(r), word(r))
        elif k < .3: p.do('EXP', word(r), r.getrandbits(9))
        elif k < .5:
            name = r.choice(['MSTORE', 'MSTORE8', 'MLOAD', 'CALLDATACOPY', 'CODECOPY', 'EXTCODECOPY', 'SHA3', 'LOG0', 'LOG2', 'LOG4'])
            p.do(name, *memargs(r, name, .02))
        elif k < .6: p.do('SSTORE', r.choice([0, 1, 2]), r.choice(VALS))
        elif k < .66: p.do('SLOAD', r.choice([0, 1, 2, 3]))
        elif k < .75: p.op(*r.sample(['ADDRESS', 'CALLER', 'CALLVALUE', 'PC', 'MSIZE', 'GAS', 'CALLDATASIZE', 'SELFBALANCE', 'RETURNDATASIZE', 'NUMBER', 'CODESIZE'], 3))
        elif k < .83:
            nm = r.choice(['CALL', 'CALLCODE', 'DELEGATECALL', 'STATICCALL'])
            p.do(nm, r.choice(CALLGAS), r.choice(ADDRS), *(([r.choice([0, 0, 1])] if nm in ('CALL', 'CALLCODE') else []) + [off(r), r.choice(SIZES), off(r), r.choice(SIZES)]))
        elif k < .86: p.do('CREATE', r.choice([0, 1]), off(r), r.choice(SIZES))
        elif k < .93:   # a short forward jump
            skip = r.randrange(0, 4)
            t = len(p) + 4 + skip
            if t < 250 and r.random() < .5: p.push(t, 1).op('JUMP').raw(b'\xfe'); p.raw([0x5b] * skip); p.op('JUMPDEST')
            elif t < 250: p.push(r.choice([0, 1])).push(t + 2, 1).op('JUMPI').op('PC'); p.raw([0x58] * (t + 2 - len(p))); p.op('JUMPDEST')
        else: p.push(word(r)).op('DUP1', 'SWAP1', 'POP')
    return p

def ending(r, p):
    k = r.random()
    if k < .2: pass
    elif k < .35: p.op('STOP')
    elif k < .6: p.do('RETURN', off(r), r.choice(SIZES))
    elif k < .75: p.do('REVERT', off(r), r.choice(SIZES))
    elif k < .8: p.op('INVALID')
    elif k < .85: p.do('SELFDESTRUCT', r.choice(ADDRS))
    elif k < .88: p.op(r.choice([0x0c, 0x21, 0xef, 0xf6]))
    elif k < .91: p.op('POP', *['POP'] * 40)
    elif k < .94: p.do('JUMP', len(p) + 1)
    elif k < .97: p.do('RETURNDATACOPY', 0, 1000, 1)
    else: p.op('JUMPDEST'); q = len(p) - 1; p.push(q, 2).op('JUMP')
    return p

def script(r):
    s = dict(st=r.choice([0, 0, 1, 2]), gas=r.choice([0, 10, 3000]), ref=0, out=bytes(r.randrange(256) for _ in range(r.choice([0, 4, 40]))), addr=r.getrandbits(160))
    if s['st'] == 2: s.update(gas=0, out=b'')
    if s['st'] == 0: s['ref'] = r.choice([0, 0, 50, -7])
    return s

def programs(r, n, ident='prog', size=None):
    cases = []
    for i in range(n):
        p = ending(r, program(r, size))
        slots = {k: (v, v) for k, v in ((0, 1), (1, 0), (2, 5))}
        cases.append(Case('%s%d' % (ident, i), p, rev=r.choice([5, 5, 5] + REVS), gas=r.choice([200000, 200000, 200000, 50000, 5000, r.randrange(0, 100000)]), slots=slots,
                          input=bytes(r.randrange(256) for _ in range(r.choice([0, 4, 36]))), calls=[script(r) for _ in range(6)], static=r.random() < .1,
                          depth=r.choice([0, 0, 1, 50]), hashmode=r.choice([0, 1, 2, 2, 2, 2]), limit=700))
    return cases

def byte_soup(r, n):
    """Arbitrary bytes as code, biased towards instructions that run."""
    cases = []
    for i in range(n):
        L = r.randrange(0, 60)
        if r.random() < .3: code = bytes(r.randrange(256) for _ in range(L))
        else: code = bytes(r.choice([0x60, 0x60, 0x61, 0x5f, 0x5b, 0x80, 0x81, 0x90, 0x01, 0x03, 0x52, 0x51, 0x56, 0x57, 0x55, 0x54, 0x58, 0x59, 0x5a, 0xf3, 0xfd, 0x50, r.randrange(256)]) for _ in range(L))
        cases.append(Case('soup%d' % i, code, rev=r.choice(REVS), gas=r.choice([0, 1, 2, 3, 10, 100, 1000, 3000]), limit=500, calls=[dict(gas=5, out=b'z')], input=b'\x01\x02',
                          static=r.random() < .1))
    return cases

def small_programs(alphabet, length, gas=200, **kw):
    """All programs of the given length over an alphabet of byte strings."""
    import itertools
    return [Case('all-%s' % b''.join(t).hex(), b''.join(t), gas=gas, limit=60, **kw) for t in itertools.product(alphabet, repeat=length)]
