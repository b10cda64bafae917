"""Cases for the processor floria."""
import json, random

def num(x): return list(x.to_bytes((x.bit_length() + 7) // 8, 'big'))
def addr(*b): return [0] * (20 - len(b)) + list(b)
ALICE, BOB, EVE = addr(0xa1, 1), addr(0xb0, 2), addr(0xe0, 3)
CON, DON, FAB = addr(0xc0, 4), addr(0xd0, 5), addr(0xf0, 6)     # contracts
NEW, ZERO = addr(0x11, 0x22), addr()
# Addresses of creations by CON with nonce 1 and by ALICE with nonce 0.
PREDICTED = {('CON', 1): [194, 233, 248, 239, 42, 172, 57, 122, 71, 68, 174, 185, 229, 162, 207, 187, 147, 7, 82, 168],
             ('ALICE', 0): [144, 157, 108, 219, 212, 123, 69, 141, 96, 5, 202, 230, 69, 80, 181, 198, 53, 13, 22, 41]}
DRIVER = [0xd1, 0, 0xa0, 0x1e] + [0] * 16
SYSTEM = [0xd1, 0, 0xec] + [0] * 17
CALL, DELEGATE, STATIC, CALLCODE, CREATE, CREATE2 = range(6)
MAX = 2**256 - 1
SEL = {'setBalance': [227, 4, 67, 188], 'copyCode': [214, 160, 199, 175], 'swapCode': [7, 105, 11, 42], 'setStorage': [57, 229, 3, 171], 'incNonce': [121, 190, 173, 56]}

def pre(i): return addr(i)
def acc(a, b=0, n=0, c=(), s=()): return {'a': a, 'b': num(b), 'n': num(n), 'c': list(c), 's': [[num(k), num(v)] for k, v in s]}
def tx(sender=ALICE, to=CON, nonce=0, input=(), value=0, gas=1000000, price=1, al=None):
    return {'sender': sender, 'to': to or [], 'create': to is None, 'nonce': num(nonce), 'input': list(input), 'value': num(value), 'gas': num(gas), 'price': num(price),
            'hasal': al is not None, 'al': [{'a': a, 'k': [num(k) for k in ks]} for a, ks in al or []]}
def case(rev, t, world, script=(), more=()): return {'rev': rev, 'tx': t, 'world': world, 'script': list(script), 'more': list(more)}

def call(kind, to=None, value=0, input=(), gas=10**9, salt=0, ca=None):
    return {'o': 'call', 'kind': kind, 'to': to or ZERO, 'value': num(value), 'input': list(input), 'gas': num(gas), 'salt': num(salt), 'ca': ca or ZERO}
def sstore(k, v): return {'o': 'sstore', 'k': num(k), 'v': num(v)}
def log(*d): return {'o': 'log', 'v': list(d)}
def access(a): return {'o': 'access', 'to': a}
def tstore(k, v): return {'o': 'tstore', 'k': num(k), 'v': num(v)}
def slot(a, k): return {'o': 'slot', 'to': a, 'k': num(k)}
def destroy(a): return {'o': 'destroy', 'to': a}
def put(kind, a, v): return {'o': 'put', 'kind': kind, 'to': a, 'v': v if kind == 3 else num(v)}
def look(a, k=1): return {'o': 'look', 'to': a, 'k': num(k)}
def ret(ok=True, out=(), left=10**12, ref=0, err=False, size=None, byte=0):
    r = {'o': 'ret', 'ok': ok, 'out': list(out), 'left': num(left), 'ref': num(abs(ref)), 'neg': ref < 0, 'err': err}
    if size is not None: r['k'], r['v'] = num(size), num(byte)
    return r
def revert(left=10**12, out=(), ref=0): return ret(False, out, left, ref)
def halt(): return ret(False, (), 0)
def word(x): return list((x % 2**256).to_bytes(32, 'big'))
def sysin(m, *args): return SEL[m] + [b for a in args for b in (a if isinstance(a, list) and len(a) == 32 else [0] * 12 + a if isinstance(a, list) else word(a))]

def world(r=None, **over):
    w = {tuple(a): acc(a, b, n, c, s) for a, b, n, c, s in [
        (ALICE, 10**12, 0, (), ()), (BOB, 500, 3, (), ()), (CON, 1000, 1, (0x60, 1), ((1, 7),)), (DON, 20, 1, (0x60, 2, 3), ()), (FAB, 0, 5, (0x60, 9), ((2, 9), (1, 1))),
        (DRIVER, 50, 1, (0x60, 0x77), ()), (SYSTEM, 0, 1, (0,), ())]}
    return list(w.values())

REVS = range(6)
TARGETS = [CON, DON, FAB, BOB, NEW, ALICE, EVE]

def some_value(r): return r.choice([0, 0, 0, 1, 1, 7, 20, 21, 1000, 1001, 10**6, 2**64, 2**255, MAX])

def random_script(r, n, weights=None):
    """A random sequence of what frames do."""
    w = dict(sstore=4, log=2, look=2, access=1, call=5, create=2, pre=1, sys=1, ret=4, revert=3, halt=2, err=.1)
    w.update(weights or {})
    ks, ws = zip(*((k, v) for k, v in w.items() if k != 'refs'))
    out = []
    for _ in range(n):
        k = r.choices(ks, ws)[0]
        g = r.choice([10**9, 10**9, 10**6, 50000, 30000, 9000, 700, 0])
        if k == 'sstore': out.append(sstore(r.choice([1, 2, 3, 2**255 + 1]), r.choice([0, 1, 7, 2**255, MAX])))
        elif k == 'log': out.append(log(*r.choices(range(256), k=r.randrange(6))))
        elif k == 'look': out.append(look(r.choice(TARGETS), r.choice([1, 2, 2**255 + 1])))
        elif k == 'tstore': out.append(tstore(r.choice([1, 2, 2**248 + 2]), r.choice([0, 1, 7, MAX])))
        elif k == 'slot': out.append(slot(r.choice(TARGETS), r.choice([1, 2, 2**255 + 1])))
        elif k == 'destroy': out.append(destroy(r.choice(TARGETS)))
        elif k == 'put':
            i = r.choice([1, 1, 2, 3, 3, 4])
            a = r.choice([CON, DON, FAB, BOB, NEW, EVE])
            out.append(put(i, a, r.choice([[], [0x60], [0x60, 5, 5]]) if i == 3 else r.choice([0, 1, 500, 501, 10**6, 2**63])))
        elif k == 'access': out.append(access(r.choice(TARGETS)))
        elif k == 'call':
            out.append(call(r.choice([CALL, CALL, CALL, DELEGATE, STATIC, CALLCODE]), r.choice(TARGETS + [DRIVER]), some_value(r), r.choices(range(256), k=r.choice([0, 1, 5])), g, 0, r.choice([None, CON, pre(4)])))
        elif k == 'create':
            kind = r.choice([CREATE, CREATE2])
            out.append(call(kind, None, r.choice([0, 0, 1, 20, 5000]), r.choice([[], [1, 2], [0x60, 3]]), g, r.choice([0, 1])))
            if r.random() < .6:
                out += r.choice([[], [sstore(1, 5)], [log(1)]])
                out.append(r.choice([ret(True, [0x60] * r.randrange(4)), ret(True, [0xef, 1]), ret(True, [1, 0xef]), ret(True, [], 10**12, 0, size=r.choice([24576, 24577, 100])),
                                     ret(True, [1, 2, 3], r.choice([0, 599, 600, 601])), revert(), halt()]))
        elif k == 'pre':
            i = r.choice([1, 2, 3, 4, 8, 9, 10, 11])
            out.append(call(r.choice([CALL, CALL, STATIC, DELEGATE, CALLCODE]), pre(i), r.choice([0, 0, 1, 5]), r.choice([[], [1], [255], [254], [7] * 40]), r.choice([g, 30 + 100 * i, 40 + 100 * i, 50 + 100 * i, 39 + 100 * i])))
        elif k == 'sys':
            out += system_call(r)
        elif k == 'ret': out.append(ret(True, r.choices(range(256), k=r.choice([0, 0, 1, 4])), r.choice([10**12, 10**12, 1000, 10, 0]), r.choice(w.get('refs') or [0, 0, 0, 1, 4800, 20000, 10**8])))
        elif k == 'revert': out.append(revert(r.choice([10**12, 1000, 1, 0]), r.choices(range(256), k=r.choice([0, 3])), r.choice([0, 0, 5000])))
        elif k == 'halt': out.append(halt())
        elif k == 'err': out.append(ret(r.random() < .5, [], 10**12, 0, True))
    return out

def system_args(r, m):
    a = r.choice([CON, DON, BOB, NEW, DRIVER, EVE])     # not the origin, see fchecks.origin_cases
    b = r.choice([CON, DON, BOB, NEW, FAB, a])
    if m == 'setBalance': v = [a, r.choice([0, 1, 500, 2**255, MAX])]
    elif m in ('copyCode', 'swapCode'): v = [a, b]
    elif m == 'setStorage': v = [a, r.choice([1, 2, 9, 2**160 + 1, 2**255 + 1]), r.choice([0, 1, 2**255 + 7, MAX])]
    else: v = [a, r.choice([0, 1, 2, 255, 256, 257, 2**64, 2**64 + 1, 2**128 + 5, MAX, 2**63])]
    x = sysin(m, *v)
    q = r.random()
    if q < .06: x = x[:-1]
    elif q < .12: x = x + [0]
    elif q < .15: x = x[:r.randrange(5)]
    elif q < .18: x = x[:3] + [x[3] ^ 1] + x[4:]
    elif q < .3: x = x[:4] + r.choices(range(256), k=12) + x[16:]      # dirty padding of the address
    return x

def system_call(r):
    """The driver contract (or somebody else) calls the system contract."""
    m = r.choice(list(SEL))
    base = {'setBalance': 9000, 'incNonce': 9000, 'copyCode': 32000, 'swapCode': 64000, 'setStorage': 20000}[m]
    g = r.choice([10**9, 10**9, 10**9, base, base - 1, base + 1, base + 203 * 2, base + 203 * 2 - 1, base + 203 * 3, base + 203 * 2 + 101, base + 203 * 2 + 102, base + 100])
    op = call(r.choice([CALL] * 9 + [CALLCODE, DELEGATE]), SYSTEM, r.choice([0, 0, 0, 1]), system_args(r, m), g)
    if r.random() < .15: return [op]
    return [call(CALL, DRIVER, r.choice([0, 0, 3])), op]
