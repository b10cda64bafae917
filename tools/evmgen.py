"""Cases for the EVM specification (spec/Evm.tla) and the interpreters.

A case is a program with its complete context; it is written both as JSON (for
TLC) and as lines of text (for the drivers).  Generators are deterministic in
the seed.  They know the shape of instructions, not their meaning: what the
outcome of a case must be is decided by the specification alone.
"""
import hashlib, json, random

OPS = {}
def _ops():
    base = {0: 'STOP', 1: 'ADD', 2: 'MUL', 3: 'SUB', 4: 'DIV', 5: 'SDIV', 6: 'MOD', 7: 'SMOD', 8: 'ADDMOD', 9: 'MULMOD', 10: 'EXP',
            11: 'SIGNEXTEND', 16: 'LT', 17: 'GT', 18: 'SLT', 19: 'SGT', 20: 'EQ', 21: 'ISZERO', 22: 'AND', 23: 'OR', 24: 'XOR', 25: 'NOT',
            26: 'BYTE', 27: 'SHL', 28: 'SHR', 29: 'SAR', 32: 'SHA3', 48: 'ADDRESS', 49: 'BALANCE', 50: 'ORIGIN', 51: 'CALLER', 52: 'CALLVALUE',
            53: 'CALLDATALOAD', 54: 'CALLDATASIZE', 55: 'CALLDATACOPY', 56: 'CODESIZE', 57: 'CODECOPY', 58: 'GASPRICE', 59: 'EXTCODESIZE',
            60: 'EXTCODECOPY', 61: 'RETURNDATASIZE', 62: 'RETURNDATACOPY', 63: 'EXTCODEHASH', 64: 'BLOCKHASH', 65: 'COINBASE', 66: 'TIMESTAMP',
            67: 'NUMBER', 68: 'PREVRANDAO', 69: 'GASLIMIT', 70: 'CHAINID', 71: 'SELFBALANCE', 72: 'BASEFEE', 73: 'BLOBHASH', 74: 'BLOBBASEFEE',
            80: 'POP', 81: 'MLOAD', 82: 'MSTORE', 83: 'MSTORE8', 84: 'SLOAD', 85: 'SSTORE', 86: 'JUMP', 87: 'JUMPI', 88: 'PC', 89: 'MSIZE',
            90: 'GAS', 91: 'JUMPDEST', 92: 'TLOAD', 93: 'TSTORE', 94: 'MCOPY', 95: 'PUSH0', 240: 'CREATE', 241: 'CALL', 242: 'CALLCODE',
            243: 'RETURN', 244: 'DELEGATECALL', 245: 'CREATE2', 250: 'STATICCALL', 253: 'REVERT', 254: 'INVALID', 255: 'SELFDESTRUCT'}
    for i in range(32): base[0x60 + i] = 'PUSH%d' % (i + 1)
    for i in range(16): base[0x80 + i] = 'DUP%d' % (i + 1); base[0x90 + i] = 'SWAP%d' % (i + 1)
    for i in range(5): base[0xa0 + i] = 'LOG%d' % i
    return base
NAMES = _ops()
OPS = {n: v for v, n in NAMES.items()}
POPS = dict(ADD=2, MUL=2, SUB=2, DIV=2, SDIV=2, MOD=2, SMOD=2, ADDMOD=3, MULMOD=3, EXP=2, SIGNEXTEND=2, LT=2, GT=2, SLT=2, SGT=2, EQ=2, ISZERO=1,
            AND=2, OR=2, XOR=2, NOT=1, BYTE=2, SHL=2, SHR=2, SAR=2, SHA3=2, BALANCE=1, CALLDATALOAD=1, CALLDATACOPY=3, CODECOPY=3, EXTCODESIZE=1,
            EXTCODECOPY=4, RETURNDATACOPY=3, EXTCODEHASH=1, BLOCKHASH=1, BLOBHASH=1, POP=1, MLOAD=1, MSTORE=2, MSTORE8=2, SLOAD=1, SSTORE=2,
            JUMP=1, JUMPI=2, TLOAD=1, TSTORE=2, MCOPY=3, CREATE=3, CALL=7, CALLCODE=7, RETURN=2, DELEGATECALL=6, CREATE2=4, STATICCALL=6,
            REVERT=2, SELFDESTRUCT=1, LOG0=2, LOG1=3, LOG2=4, LOG3=5, LOG4=6)
for i in range(16): POPS['DUP%d' % (i + 1)] = i + 1; POPS['SWAP%d' % (i + 1)] = i + 2
M256 = (1 << 256) - 1

SELF = 0x00000000000000000000000011c0ffee000000000000000000000000000000a1
SENDER = 0x5e4de4000000000000000000000000000000b2
ORIGIN = 0x0419140000000000000000000000000000000c3
CONTRACT = 0xc047ac7000000000000000000000000000000d4
EOA = 0xe0a000000000000000000000000000000000e5
GHOST = 0x9405700000000000000000000000000000000f6
EMPTY = 0xe397900000000000000000000000000000000a7
COINBASE = 0xc014ba5e000000000000000000000000000000b8
ADDRS = [SELF, SENDER, ORIGIN, CONTRACT, EOA, GHOST, EMPTY, COINBASE, 1, 9, 0]


def tb(v):
    """Trimmed big-endian bytes of a word."""
    return list(v.to_bytes((v.bit_length() + 7) // 8, 'big'))
def hx(b):
    b = bytes(b)
    return b.hex() if b else '-'
def gp(g): return [g >> 60, (g >> 30) & ((1 << 30) - 1), g & ((1 << 30) - 1)]


class Prog:
    def __init__(self): self.b = bytearray()
    def push(self, v, n=None):
        v &= M256
        if n is None: n = max(1, (v.bit_length() + 7) // 8)
        self.b.append(0x5f + n); self.b += v.to_bytes(n, 'big')
        return self
    def op(self, *names):
        for n in names: self.b.append(OPS[n] if isinstance(n, str) else n)
        return self
    def do(self, name, *args):
        """Instruction with operands, args[0] on top."""
        for a in reversed(args): self.push(a)
        return self.op(name)
    def raw(self, bs): self.b += bytes(bs); return self
    def __len__(self): return len(self.b)


class Case:
    def __init__(self, id, code, rev=5, gas=1000000, static=False, depth=0, input=b'', **kw):
        self.id, self.code, self.rev, self.gas, self.static, self.depth, self.input = id, bytes(code.b if isinstance(code, Prog) else code), rev, gas, static, depth, bytes(input)
        self.env = dict(self=SELF, sender=SENDER, value=kw.pop('value', 0), origin=ORIGIN, gasprice=0x123456789a, coinbase=COINBASE, number=1000,
                        timestamp=0x65432100, gaslimit=0x1c9c380, prevrandao=int.from_bytes(hashlib.sha256(b'rnd').digest(), 'big'), chainid=250,
                        basefee=0x77359400, blobbasefee=0x1234)
        self.env.update(kw.pop('env', {}))
        self.blobs = kw.pop('blobs', [int.from_bytes(hashlib.sha256(b'blob%d' % i).digest(), 'big') for i in range(3)])
        ccode = bytes(range(1, 201))
        self.accts = {SELF: (1000, self.code, self._hash(self.code), True), SENDER: (0x1234567890, b'', self._hash(b''), True),
                      CONTRACT: (77, ccode, self._hash(ccode), True), EOA: (5, b'', self._hash(b''), True), EMPTY: (0, b'', 0, False),
                      COINBASE: (1, b'\x5b\x00', self._hash(b'\x5b\x00'), True), ORIGIN: (M256, b'', self._hash(b''), True)}
        self.accts.update(kw.pop('accts', {}))
        self.slots = kw.pop('slots', {})          # key -> (orig, cur)
        self.trans = kw.pop('trans', {})
        self.wa = kw.pop('wa', [SELF, SENDER, ORIGIN] + list(range(1, 10)))
        self.ws = kw.pop('ws', [])
        self.calls = kw.pop('calls', [])          # dicts st gas ref out addr writes
        self.hashmode = kw.pop('hashmode', 2)
        self.skip = kw.pop('skip', 0)             # instructions executed before the first single step
        self.limit = kw.pop('limit', 3000)
        self.destructed = kw.pop('destructed', False)  # the account has self-destructed earlier in the transaction
        self.stack = kw.pop('stack', [])          # bottom first; stepwise executions only
        assert not kw, kw
    @staticmethod
    def _hash(b): return int.from_bytes(hashlib.sha256(b'code' + b).digest(), 'big')
    def json(self):
        calls = [dict(st=c.get('st', 0), gas=gp(c.get('gas', 0)), ref=c.get('ref', 0), out=list(c.get('out', b'')), addr=tb(c.get('addr', 0)),
                      writes=[dict(k=tb(k), v=tb(v)) for k, v in c.get('writes', [])]) for c in self.calls]
        return json.dumps(dict(id=self.id, rev=self.rev, static=self.static, depth=self.depth, destructed=self.destructed, gas=gp(self.gas), code=list(self.code),
                    input=list(self.input), env={k: tb(v) for k, v in self.env.items()}, blobs=[tb(x) for x in self.blobs],
                    accts=[dict(a=tb(a), bal=tb(t[0]), code=list(t[1]), hash=tb(t[2]), ex=t[3]) for a, t in self.accts.items()],
                    slots=[dict(k=tb(k), o=tb(o), c=tb(c)) for k, (o, c) in self.slots.items()],
                    trans=[dict(k=tb(k), v=tb(v)) for k, v in self.trans.items()], wa=[tb(a) for a in self.wa], ws=[tb(a) for a in self.ws],
                    calls=calls, stack=[tb(x) for x in self.stack]), separators=(',', ':'))
    def text(self):
        l = ['case ' + self.id, 'rev %d' % self.rev, 'static %d' % self.static, 'depth %d' % self.depth, 'gas %d' % self.gas,
             'code ' + hx(self.code), 'input ' + hx(self.input), 'codehash %d %s' % (self.hashmode, hashlib.sha256(self.code).hexdigest()),
             'destructed %d' % self.destructed, 'skip %d' % self.skip, 'limit %d' % self.limit]
        l += ['env %s %s' % (k, hx(tb(v))) for k, v in self.env.items()]
        l += ['blob ' + hx(tb(x)) for x in self.blobs]
        l += ['acct %s %s %s %s %d' % (hx(tb(a)), hx(tb(t[0])), hx(t[1]), hx(tb(t[2])), t[3]) for a, t in self.accts.items()]
        l += ['slot %s %s %s' % (hx(tb(k)), hx(tb(o)), hx(tb(c))) for k, (o, c) in self.slots.items()]
        l += ['trans %s %s' % (hx(tb(k)), hx(tb(v))) for k, v in self.trans.items()]
        l += ['wa ' + hx(tb(a)) for a in self.wa] + ['ws ' + hx(tb(a)) for a in self.ws]
        l += ['stk ' + hx(tb(x)) for x in self.stack]
        for c in self.calls:
            w = c.get('writes', [])
            l.append('call %d %d %d %s %s %d %s' % (c.get('st', 0), c.get('gas', 0), c.get('ref', 0), hx(c.get('out', b'')), hx(tb(c.get('addr', 0))),
                                                    len(w), ' '.join('%s %s' % (hx(tb(k)), hx(tb(v))) for k, v in w)))
        return '\n'.join(l + ['end', ''])


def write(cases, prefix):
    with open(prefix + '.ndjson', 'w') as f:
        for c in cases: f.write(c.json() + '\n')
    with open(prefix + '.txt', 'w') as f:
        for c in cases: f.write(c.text())


# --- interesting values ----------------------------------------------------------
EDGE = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 29, 30, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 160, 191, 192, 193, 248, 254, 255, 256, 257, 511, 512,
        0xffff, 0x10000, 0xffffffff, 1 << 32, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, (1 << 127), (1 << 128) - 1,
        1 << 128, (1 << 128) + 1, (1 << 191) + 5, 1 << 192, (1 << 192) - 1, (1 << 254), (1 << 255) - 1, 1 << 255, (1 << 255) + 1, M256, M256 - 1, M256 - 31,
        M256 - 255, M256 ^ 0xff, M256 ^ 0xffff, 0x80, 0x8000, 0x7f, 0x80 << 240, int('01' * 32, 16), int('80' * 32, 16), int('ff00' * 16, 16)]
def word(r):
    k = r.random()
    if k < 0.45: return r.choice(EDGE)
    if k < 0.55: return r.getrandbits(256)
    if k < 0.65: return (1 << r.randrange(256)) + r.choice([-1, 0, 1]) & M256
    if k < 0.75: return (-r.getrandbits(r.randrange(1, 200))) & M256
    if k < 0.85: return (r.getrandbits(64) << r.choice([0, 64, 128, 192])) & M256
    return r.getrandbits(r.randrange(1, 257))


def keccak256(data):
    """Keccak-256, for the code hashes of cases."""
    M = (1 << 64) - 1
    rol = lambda x, n: ((x << n) | (x >> (64 - n))) & M if n else x
    rc, lfsr = [], 1
    for _ in range(24):
        v = 0
        for j in range(7):
            if lfsr & 1: v |= 1 << ((1 << j) - 1)
            lfsr = (lfsr << 1) ^ (0x171 if lfsr & 0x80 else 0)
        rc.append(v)
    pad = bytearray(data) + b'\x01' + bytes(-(len(data) + 1) % 136)
    pad[-1] |= 0x80
    A = [[0] * 5 for _ in range(5)]
    for off in range(0, len(pad), 136):
        for i in range(17): A[i % 5][i // 5] ^= int.from_bytes(pad[off + 8 * i:off + 8 * i + 8], 'little')
        for r in range(24):
            C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
            D = [C[x - 1] ^ rol(C[(x + 1) % 5], 1) for x in range(5)]
            A = [[A[x][y] ^ D[x] for y in range(5)] for x in range(5)]
            x, y, cur = 1, 0, A[1][0]
            for t in range(24):
                x, y = y, (2 * x + 3 * y) % 5
                cur, A[x][y] = A[x][y], rol(cur, (t + 1) * (t + 2) // 2 % 64)
            A = [[A[x][y] ^ (~A[(x + 1) % 5][y] & M & A[(x + 2) % 5][y]) for y in range(5)] for x in range(5)]
            A[0][0] ^= rc[r]
    return b''.join(A[i % 5][i // 5].to_bytes(8, 'little') for i in range(4))
