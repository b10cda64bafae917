"""The checks of the processor floria (F01 to F08)."""
import itertools, json, random, re
from fcases import *
from vlib import *

T = lambda quick, thorough: thorough if THOROUGH else quick
def rnd(k): return random.Random(SEED * 1000 + 300 + k)
D = os.path.join(VERIF, 'drivers/go/floria')
HASHES = dict(Hash='<- Keccak256', NewAddress='<- CreateHash', NewAddress2='<- Create2Hash')


class Diff:
    """The first difference between a recorded transaction and the specification."""
    def __init__(self, m, byid):
        x = re.match(r'<<"BAD", "([^"]*)", (\d+), "(\w+)", \{([^}]*)\}, "(\w+)", \{([^}]*)\}, (\d+), (.*)', m, re.S)
        if not x: raise CheckError('unreadable report: ' + m[:300])
        q = lambda i: set(re.findall(r'"([\w-]+)"', x.group(i)))
        self.case, self.pos, self.event, self.fields, self.cat, self.why, self.depth, self.raw = byid[x.group(1)], int(x.group(2)), x.group(3), q(4), x.group(5), q(6), int(x.group(7)), m

    STATE = {'balance', 'nonce', 'code', 'storage', 'logs', 'transient', 'destroyed'}
    SETTLEMENT = {'used', 'balance', 'blob', 'between'}
    PARAMETERS = {'kind', 'static', 'depth', 'recipient', 'sender', 'input', 'value', 'runcode', 'codehash', 'environment', 'gas'}

    def properties(self):
        """The properties a difference belongs to."""
        f = self.fields
        if self.cat == 'rejected':
            return {'F01'} if self.why == {'intrinsic'} and f <= self.SETTLEMENT else {'F02'} if self.why != {'intrinsic'} else {'F01', 'F02'}
        if 'accepted' in f: return {'F02'}
        if self.event == 'end' and self.pos == 2 and 'nonce' in f and self.cat != 'create': return {'F02'}
        if f <= {'warm', 'slots'}: return {'F07'}
        if self.event == 'look': return {'F08'}
        if self.event in ('access', 'slot'): return {'F07', 'F08'}
        if f == {'status'}: return {'F08'}
        if self.event == 'end' and f <= self.SETTLEMENT and self.cat == 'call': return {'F01'}
        if self.event == 'end' and f <= {'unexecuted', 'success', 'used', 'balance'} and self.depth == 1: return {'F02'}
        if self.event == 'enter' and self.pos == 2:
            if f <= {'nonce', 'created', 'codehash'} and self.cat == 'call': return {'F02'}
            if f <= {'gas', 'balance'}: return {'F01'} if self.case['tx']['value'] == [] or f == {'gas'} else {'F01', 'F03'}
        r = set()
        failed = self.event in ('result', 'end') and self.why not in ({'ok'}, set())
        if failed and f & self.STATE: r.add('F03')
        if failed and self.why & {'depth', 'funds'}: r.add('F03')
        if self.event == 'enter' and f & self.PARAMETERS: r.add('F08')
        if self.cat == 'system': r.add('F05')
        elif self.cat == 'precompile': r.add('F06')
        elif self.cat == 'create': r.add('F04')
        elif not r or f & self.STATE: r.add('F03')
        return r

    def ambiguous(self):
        """Whether the settlement of the transaction could be the reason."""
        return self.event == 'end' and self.fields <= self.SETTLEMENT and self.cat != 'call'


def run_cases(c, cases, name='f', origin=True, report=True):
    """Runs the cases on the real processor and lets TLC compare: the differences."""
    exe = go_build('./go/zz_verif_floria', spath('floria'), {'go/zz_verif_floria/main.go': D + '/main.go'}, go_mod())
    for i, x in enumerate(cases): x['id'] = '%s%d' % (name, i)
    f = spath('cases.ndjson')
    open(f, 'w').write(''.join(json.dumps(x) + '\n' for x in cases))
    rc, o, e = run([exe, f, spath('runs.ndjson')], timeout=300)
    if rc != 0:
        cur = open(spath('runs.ndjson') + '.case').read()
        c.violation('case %s %s: %s' % (cur, 'did not end' if rc is None else 'crashed', e[:1500]), {'case': [x for x in cases if x['id'] == cur], 'stderr': e[-6000:]})
        return []
    r = tlc('FloriaTrace', dict(HASHES, OriginRule='TRUE' if origin else 'FALSE'), view='View', env={'CASES': f, 'RUNS': spath('runs.ndjson')}, heap='8g')
    if not r.ok: raise CheckError('TLC failed on FloriaTrace:\n' + r.out[-3000:])
    if report:
        c.model(r)
        c.traces(len(cases))
        c.note('events', r.distinct)
        if cases: c.sample(json.dumps({k: cases[len(cases) // 2][k] for k in ('rev', 'tx', 'script')})[:1500])
    byid = {x['id']: x for x in cases}
    return [Diff(m, byid) for m in r.msgs if m.startswith('<<"BAD"')]


def judge(c, diffs, accept, known=lambda d: None):
    settles = not any(d.event == 'end' and d.fields <= d.SETTLEMENT and d.cat == 'call' for d in diffs)
    for d in diffs:
        if accept(d) and (settles or not d.ambiguous()):
            c.violation('case %s, event %d (%s, %s): %s differ from the specification\n    %s' % (d.case['id'], d.pos, d.event, d.cat, '/'.join(sorted(d.fields)), d.raw[:1500]),
                        {'case': d.case, 'report': d.raw[:8000]}, key=known(d))
        else: c.notes['differences_of_other_properties'] = c.notes.get('differences_of_other_properties', 0) + 1


def intrinsic(t):
    z = t['input'].count(0)
    return (53000 if t['create'] else 21000) + 4 * z + 16 * (len(t['input']) - z) + (2400 * len(t['al']) + 1900 * sum(len(x['k']) for x in t['al']) if t['hasal'] else 0)


def with_gas(t, g): return dict(t, gas=num(g))
def random_input(r, n): return [r.choice([0, 0, 1, r.randrange(256)]) for _ in range(n)]
def random_al(r, deep=True):
    return r.choice([None, [], [(r.choice(TARGETS + [pre(3), ALICE]), r.sample([1, 2, 3, 2**255, 0], r.randrange(4))) for _ in range(r.choice([1, 1, 2, 5]))]])


# --- F01: fees ---------------------------------------------------------------
def fee_cases(r, n):
    res = []
    for rev in REVS:
        for k in range(n):
            sender = r.choice([ALICE, ALICE, ALICE, ALICE, ZERO])
            to = r.choice([CON, CON, CON, DON, BOB, None, NEW])
            t = tx(sender, to, 0, random_input(r, r.choice([0, 1, 2, 31, 100])), r.choice([0, 0, 0, 3]), 0, 0, random_al(r))
            need = intrinsic(t)
            extra = r.choice([0, 1, 9, 10, 11, 99, 1000, 4999, 5000, 30001, 10**6, 2**40 + 7, 2**60])
            g = need + extra
            price = r.choice([0, 1, 1, 3, 10**9, 2**64 + 1, 2**128, 2**190])
            t = dict(t, price=num(price))
            funds = r.choice([g * price, g * price + 1, g * price + 3, g * price + 10**18])
            left = r.choice([extra, extra, 0, 1, extra // 2, extra * 9 // 10, max(0, extra - 1), min(9, extra), min(10, extra), min(11, extra), min(19, extra)])
            kept = left if sender == ZERO else left - left // 10
            cap = (g - kept) // (5 if rev >= 2 else 2)
            ref = r.choice([0, 0, 1, cap - 1, cap, cap, cap + 1, cap // 2, 2 * cap, 10**12])
            out = [1, 2] if r.random() < .1 else []
            end = r.choice([ret(True, out, left, max(0, ref))] * 6 + [ret(False, [], left, max(0, ref))] * 2 + [halt(), ret(True, [], left, ref, True)])
            if to is None and end['ok'] and r.random() < .5: end['out'] = [7] * r.randrange(4)
            res.append(case(rev, with_gas(t, g), world_with(acc(sender, min(funds, MAX), 0)), [end]))
        # gas limits around the intrinsic cost
        for k in range(n // 3):
            t = tx(r.choice([ALICE, ALICE, ZERO]), r.choice([CON, None, BOB]), 0, random_input(r, r.choice([0, 1, 7, 64, 200])), 0, 0, r.choice([1, 5]), random_al(r))
            t = with_gas(t, max(0, intrinsic(t) + r.choice([-1, -1, 0, 1, -1000, -21000, -10**6, 15])))
            res.append(case(rev, t, world_with(acc(t['sender'], 10**12, 0)), [sstore(1, 3), ret()]))
        # several transactions, whose fees add up
        for k in range(n // 10):
            ts = [tx(to=r.choice([CON, BOB, DON]), nonce=i, gas=r.choice([21000, 21500, 50000]), price=r.choice([1, 2]), input=random_input(r, r.randrange(3))) for i in range(3)]
            res.append(case(rev, ts[0], world(), random_script(r, 6, dict(err=0)), ts[1:]))
    return res

def world_with(*accs):
    w = {tuple(x['a']): x for x in world()}
    for x in accs: w[tuple(x['a'])] = x
    return list(w.values())

def f01(c):
    r = rnd(1)
    judge(c, run_cases(c, fee_cases(r, T(60, 900))), lambda d: 'F01' in d.properties())


# --- F02: acceptance -----------------------------------------------------------
def acceptance_cases(r, n):
    res = []
    M64 = 2**64 - 1
    def some(t, *accs):
        for rev in (REVS if THOROUGH else [r.choice([0, 1]), r.choice([2, 3]), r.choice([4, 5])]):
            res.append(case(rev, t, world_with(*accs), r.choice([[sstore(1, 5), log(3), ret()], [ret(True, [1])], [call(CREATE), ret(), ret()], [revert(10)]])))
    for to in [CON, None, BOB, SYSTEM, pre(1)]:
        for have in [0, 1, 5, 255, 256, 2**63, M64 - 1, M64]:
            for n_ in {0, 1, have, max(0, have - 1), min(M64, have + 1), (have + 256) % 2**64, M64}:
                some(tx(to=to, nonce=n_), acc(ALICE, 10**12, have))
        for code in [[], [0], [0x60], [0xef, 1, 0, 3]]:
            for sender, b in [(ALICE, 10**12), (ZERO, 10**12), (CON, 10**12), (DRIVER, 10**12), (BOB, 10**7)]:
                some(tx(sender, to, r.choice([0, 0, 1])), acc(sender, b, 0, code))
        for g, p in [(100000, 1), (100000, 3), (60000, 10**20), (2**40, 2**100), (53000, 0), (100000, 2**240), (2**62, 2**194), (2**62, 2**194 - 1), (2**56, 2**200), (65536, 2**240), (65536, 2**240 + 5), (3 * 2**16, 2**240 + 1), (10**6, MAX), (10**6, MAX // 10**6), (10**6, MAX // 10**6 + 1)]:
            for d in [-1, 0, 1]:
                for base in {g * p, g * p % 2**256}:
                    if 0 <= base + d <= MAX: some(tx(to=to, gas=g, price=p), acc(ALICE, base + d, 0))
                for v in [1, 10**6]:     # the value need not be covered to be accepted
                    if g * p + d + v <= MAX: some(tx(to=to, gas=g, price=p, value=v), acc(ALICE, g * p + v + d, 0))
        some(tx(to=to, gas=0, price=0), acc(ALICE, 0, 0))
    # several reasons at once, or reasons together with too little gas
    for k in range(n):
        have = r.choice([0, 0, 0, 3, M64])
        g, p = r.choice([60000, 60000, 20000, 0, 21000]), r.choice([0, 1, 2**250])
        res.append(case(r.choice(REVS), tx(r.choice([ALICE, ZERO, BOB]), r.choice([CON, None]), r.choice([have, have, have, 0, 4]), random_input(r, r.choice([0, 3])), r.choice([0, 1, 10**9]), g, p, random_al(r)),
                        world_with(acc(ALICE, r.choice([0, 59999, 60000, MAX]), have, r.choice([[], [], [1]])), acc(ZERO, 60000, have), acc(BOB, 10**6, have)), random_script(r, 5),
                        [tx(nonce=r.choice([0, 1, 2])), tx(nonce=r.choice([0, 1, 2]))]))
    for rev in REVS:
        for size in [49151, 49152, 49153, 60000]:
            for to in [None, CON]:
                if to is None and size <= 49152 and not THOROUGH and rev not in (3, 4): continue
                g = 53000 + 4 * size
                for gas in ([g] if size > 49152 and rev >= 4 and to is None else [g + 10]) + ([g - 1] if size == 49153 else []):
                    if to is None and gas >= g and not (size > 49152 and rev >= 4) and not THOROUGH and (size == 60000 or rev == 5 or size == 49151): continue
                    res.append(case(rev, tx(to=to, input=[0] * size, gas=gas), world(), [ret()]))
    return res

def f02(c):
    judge(c, run_cases(c, acceptance_cases(rnd(2), T(150, 3000))), lambda d: 'F02' in d.properties())


# --- F03: call trees, F08: messages ------------------------------------------------
def tree_cases(r, n):
    res = []
    for k in range(n):
        p = r.choice([0, 0, 1, 3])
        t = tx(value=r.choice([0, 0, 5, 2000]), price=p, to=r.choice([CON, CON, CON, CON, DON, BOB, None, NEW, SYSTEM, pre(4)]), al=r.choice([None, None, None, []]))
        w = world()
        if r.random() < .15: w = world_with(acc(BOB, MAX - r.choice([0, 1, 6, 7]), 3), acc(DON, MAX, 1, [0x60, 2]))
        res.append(case(r.choice(REVS), t, w, random_script(r, r.choice([1, 2, 3, 5, 8, 13, 21, 34]), r.choice([None, dict(tstore=2, destroy=1), dict(sys=0, pre=0), dict(call=12, create=5, tstore=2, destroy=2), dict(revert=8, halt=4, tstore=2)])), [tx(nonce=1, price=p)] if r.random() < .2 else []))
    return res

def chain(kinds, depth, tail=(), head=()):
    """Calls nested to some depth, each of the next kind."""
    s = list(head)
    for i in range(depth): s.append(call(kinds[i % len(kinds)], CON, 0, [], 2**50))
    return s + list(tail)

def deep_cases():
    res = []
    for kinds in ([CALL], [DELEGATE], [CALLCODE, CALL], [CALL, DELEGATE, CREATE]) if THOROUGH else ([CALL], [DELEGATE, CALL, CALLCODE]):
        for tail in ([sstore(1, 2)], [call(CREATE, None, 0, [1])], [call(CALL, pre(2), 1, [])], [call(STATIC, DON), revert(9)]) if THOROUGH else ([call(CALL, pre(2), 1, []), call(CREATE, None, 0, [1]), revert(9)],):
            # one call too many: 1024 nested calls are executed, the next is refused
            res.append(case(3, tx(gas=2**55), world_with(acc(ALICE, 2**60)), chain(kinds, 1025, tail)))
    return res

def transfer_cases(r, n):
    """Values around the balance of the sender and the room of the recipient."""
    res = []
    for kind in [CALL, CALLCODE, CREATE, DELEGATE, STATIC]:
        for b in [0, 1, 20, 2**64, 2**255, MAX]:
            for v in {0, 1, b, max(0, b - 1), min(MAX, b + 1), MAX, 2**64, 2**192}:
                to = r.choice([DON, DON, CON, NEW, BOB, pre(3), ALICE])
                have = r.choice([0, 0, 1, MAX - v, MAX - v + 1 if v else 0, MAX])
                have = min(have, MAX)
                a = to if to not in (NEW, pre(3), CON, ALICE) else DON
                res.append(case(r.choice(REVS), tx(price=0), world_with(acc(CON, b, 1, [0x60, 1], [(1, 7)]), acc(a, have, 1, [0x60, 2])), [sstore(1, 4), call(kind, to, v, [2], 10**5), sstore(2, 4), r.choice([ret(), revert(5)]), log(1), r.choice([ret(), revert(5)])]))
    for b in [0, 1, 7, 10**6]:
        for v in {0, 1, b, b + 1, max(0, b - 1)}:
            for to in [CON, BOB, NEW, ALICE, None, pre(2)]:
                res.append(case(r.choice(REVS), tx(to=to, value=v, price=1, gas=100000), world_with(acc(ALICE, 100000 + b, 0)), [r.choice([ret(True, [], 4000), revert(3000), halt()])]))
    r.shuffle(res)
    return res[:n]

def f03(c):
    r = rnd(3)
    judge(c, run_cases(c, tree_cases(r, T(450, 12000)) + transfer_cases(r, T(250, 10**6)) + deep_cases()), lambda d: 'F03' in d.properties())
    behaviours(c, lambda d: 'F03' in d.properties())


def message_cases(r, n):
    res = []
    for kind in [CALL, DELEGATE, STATIC, CALLCODE]:
        for outer in [None, CALL, DELEGATE, STATIC, CALLCODE]:
            for to in [CON, DON, FAB, BOB, NEW, EVE, ALICE]:
                s = [] if outer is None else [call(outer, FAB, r.choice([0, 0, 1]), [1], r.choice([10**5, 10**4 + 1]))]
                s += [call(kind, to, r.choice([0, 0, 1]), random_input(r, r.randrange(4)), r.choice([10**5, 700, 0]), 0, r.choice([None, DON, pre(4), SYSTEM]))]
                s += [look(to), look(ALICE), sstore(1, 3), r.choice([ret(True, [4]), revert(7, [5])]), look(CON), log(4), look(FAB), ret(), look(DON)]
                res.append(case(r.choice(REVS), tx(value=r.choice([0, 3]), price=r.choice([0, 2]), input=random_input(r, r.randrange(3))), world(), s))
    for k in range(n):
        res.append(case(r.choice(REVS), tx(price=r.choice([0, 1])), world(), random_script(r, r.choice([5, 10, 20, 30]), dict(look=8, call=8, create=3, sys=0, err=0, slot=1, destroy=2, tstore=1, put=3))))
    return res

def f08(c):
    r = rnd(8)
    judge(c, run_cases(c, message_cases(r, T(250, 8000)) + deep_cases()[:1]), lambda d: 'F08' in d.properties())


# --- F04: creations ---------------------------------------------------------------
def create_cases(r, n):
    res = []
    M64 = 2**64 - 1
    G = 10**7 * 8
    def out(rev, kind, end, value=0, init=(1, 2), gas=G, before=(), inside=(), after=(), accs=(), t=None, more=()):
        s = list(before) + [call(kind, None, value, list(init), gas, r.choice([0, 1, MAX]))] + list(inside) + [end] + list(after)
        res.append(case(rev, t or tx(gas=10 * G, price=0), world_with(*accs), s, more))
    for rev in REVS:
        # size, prefix, and deposit of the code; directly and nested
        for size in [0, 1, 2, 24575, 24576, 24577, 30000]:
            for byte in [0, 0xee, 0xef, 0xf0]:
                if size > 24000 and (rev not in (0, 2, 5) or byte not in (0, 0xef)) and not THOROUGH: continue
                for d in [-1, 0, 1, 10**6]:
                    if size > 24000 and d > 0 and not THOROUGH: continue
                    left = max(0, 200 * size + d)
                    end = ret(True, [], left, r.choice([0, 5]), size=size, byte=byte)
                    if r.random() < .4: res.append(case(rev, tx(to=None, input=[3, 0], gas=G, price=0), world(), [sstore(1, 1), end]))
                    else: out(rev, r.choice([CREATE, CREATE2]), end, inside=r.choice([[], [sstore(1, 2), log(8)]]))
        for code in [[0xef], [0xef, 0], [0, 0xef], [0xee, 0xef], [0xf0]]:
            out(rev, r.choice([CREATE, CREATE2]), ret(True, code))
            res.append(case(rev, tx(to=None, input=[3], gas=G, price=0), world(), [ret(True, code)]))
        # failures
        for end in [revert(100, [1, 2]), revert(0), halt(), revert(100, [0xef] * 3), ret(True, [1], 199), ret(True, [1], 200), ret(True, [1], 201), ret(False, [1], 150), ret(True, [1, 2], 10**6, 0, True)]:
            for kind in [CREATE, CREATE2]:
                out(rev, kind, end, value=r.choice([0, 1]), inside=[sstore(3, 4), log(1)], after=[call(kind, None, 0, [1, 2]), ret(True, [5])])
            res.append(case(rev, tx(to=None, input=[3], gas=10**6, value=r.choice([0, 5])), world(), [sstore(1, 1), log(2), end], [tx(to=None, nonce=1), tx(nonce=1)]))
        # nonces of the creator
        for n_ in [0, 1, 127, 128, 255, 256, 65535, 2**32, 2**63, M64 - 1, M64]:
            for kind in [CREATE, CREATE2]:
                out(rev, kind, ret(True, [6]), accs=[acc(CON, 5, n_, [0x60], [(1, 7)])], value=r.choice([0, 1, 6]), after=[call(CREATE), ret(True, [7])])
            if n_ < M64: res.append(case(rev, tx(to=None, nonce=n_, input=[1]), world_with(acc(ALICE, 10**12, n_)), [ret(True, [1])], [tx(to=None, nonce=n_ + 1)] if n_ < M64 - 1 else []))
        # collisions: the same address twice, balances or storage at the address
        for first in [ret(True, []), ret(True, [1]), revert(5), halt(), ret(True, [0xef])]:
            s = [call(CREATE2, None, 0, [9], 10**7, 3), sstore(1, 1), first, call(CREATE2, None, r.choice([0, 1]), [9], 10**7, 3), ret(True, [2]), call(CREATE2, None, 0, [9], 10**7, 4), ret(True, [2])]
            res.append(case(rev, tx(gas=10**8, price=0), world(), s))
            res.append(case(rev, tx(gas=10**8, price=0), world(), [call(CREATE2, None, 0, [9], 10**7, 3), log(1), first, ret()], [tx(nonce=1, price=0)]))
    # collisions with accounts that exist already (addresses of creations by CON with nonce 1 and by ALICE with nonce 0)
    for (creator, n_), a in PREDICTED.items():
        for b, no, code, st in [(0, 0, [], []), (5, 0, [], []), (0, 1, [], []), (0, 0, [1], []), (5, 3, [1], []), (MAX, 0, [], []), (1, 0, [], [(1, 9)])]:
            for rev in REVS:
                x = acc(a, b, no, code, st)
                if creator == 'CON': res.append(case(rev, tx(price=0), world_with(x), [sstore(2, 2), call(CREATE, None, r.choice([0, 1]), [1], 10**5), sstore(2, 2), r.choice([ret(True, [4]), revert(6)]), log(3), ret()]))
                else: res.append(case(rev, tx(to=None, price=1, value=r.choice([0, 1])), world_with(x), [sstore(2, 2), r.choice([ret(True, [4]), revert(6)])]))
    for k in range(n):
        res.append(case(r.choice(REVS), tx(price=0, to=r.choice([CON, None]), gas=10**7), world(), random_script(r, r.choice([3, 6, 12]), dict(create=14, call=3, sys=0, pre=0)), [tx(to=None, nonce=1, price=0)] if r.random() < .3 else []))
    return res

def f04(c):
    r = rnd(4)
    judge(c, run_cases(c, create_cases(r, T(150, 5000))), lambda d: 'F04' in d.properties())


# --- F05: the system contract ---------------------------------------------------------
def system_cases(r, n):
    res = []
    def sysrun(rev, ops, t=None, accs=(), outer=()):
        res.append(case(rev, t or tx(price=r.choice([0, 1])), world_with(*accs), list(outer) + [call(CALL, DRIVER, r.choice([0, 3]))] + ops))
    base = {'setBalance': 9000, 'incNonce': 9000, 'copyCode': 32000, 'swapCode': 64000, 'setStorage': 20000}
    for rev in REVS:
        for m in SEL:
            good = {'setBalance': [BOB, 77], 'incNonce': [BOB, 9], 'copyCode': [BOB, FAB], 'swapCode': [DON, FAB], 'setStorage': [DON, 5, 6]}[m]
            data = sysin(m, *good)
            cost = base[m] + {'copyCode': 203 * 2, 'swapCode': 203 * 5 // 2}.get(m, 0)
            after = [look(BOB), look(DON, 5), sstore(4, 4), r.choice([ret(), revert(3)]), r.choice([ret(), revert(3)])]
            for g in [cost - 1, cost, cost + 1, 0, base[m] - 1, base[m], 10**6]: sysrun(rev, [call(CALL, SYSTEM, 0, data, g)] + after)
            # who calls, and how
            for kind in [CALL, STATIC, DELEGATE, CALLCODE]:
                sysrun(rev, [call(kind, SYSTEM, r.choice([0, 0, 1]), data)] + after)
                res.append(case(rev, tx(price=0), world(), [call(kind, SYSTEM, 0, data)] + after))
                res.append(case(rev, tx(price=0), world(), [call(STATIC, DRIVER), call(kind, SYSTEM, 0, data)] + after))
                res.append(case(rev, tx(price=0), world(), [call(DELEGATE, DRIVER), call(kind, SYSTEM, 0, data)] + after))
            res.append(case(rev, tx(DRIVER, SYSTEM, 0, data, r.choice([0, 0, 7]), 10**6), world_with(acc(DRIVER, 10**7)), []))
            res.append(case(rev, tx(ALICE, SYSTEM, 0, data, r.choice([0, 0, 7]), 10**6), world(), []))
            # lengths and selectors
            for x in [data[:k] for k in (0, 1, 3, 4, 5, 35, 36, 67, len(data) - 1)] + [data + [0], data + [0] * 32, data[:3] + [data[3] ^ 1] + data[4:], [data[0] ^ 128] + data[1:]]:
                sysrun(rev, [call(CALL, SYSTEM, 0, x)] + after)
            # values and accounts
            for k in range(3):
                x = system_args(r, m)
                sysrun(rev, [call(CALL, SYSTEM, r.choice([0, 0, 1]), x), call(CALL, SYSTEM, 0, system_args(r, m))] + after)
        for v in [0, 1, 2, 255, 256, 257, 511, 2**32 + 1, 2**63, 2**64, 2**64 + 1, 2**128 + 9, 2**255 + 3, MAX]:
            sysrun(rev, [call(CALL, SYSTEM, 0, sysin('incNonce', r.choice([BOB, NEW, CON]), v)), ret()])
            sysrun(rev, [call(CALL, SYSTEM, 0, sysin('setBalance', r.choice([BOB, NEW, CON]), v)), look(NEW), ret()])
        for a, b in itertools.product([CON, DON, BOB, NEW, DRIVER], repeat=2):
            m = r.choice(['copyCode', 'swapCode'])
            sysrun(rev, [call(CALL, SYSTEM, 0, sysin(m, a, b)), look(a), look(b), ret()])
    for k in range(n):
        res.append(case(r.choice(REVS), tx(price=r.choice([0, 1])), world(), random_script(r, r.choice([3, 6, 12, 20]), dict(sys=12, create=1, pre=0))))
    return res

def origin_cases(r):
    res = []
    for rev in REVS:
        for m, v in [('setBalance', 5), ('setBalance', MAX), ('incNonce', 1), ('incNonce', 255)]:
            res.append(case(rev, tx(price=r.choice([0, 1])), world(), [call(CALL, DRIVER), call(CALL, SYSTEM, 0, sysin(m, ALICE, v)), look(ALICE), r.choice([ret(), revert(3)])]))
        for m, v in [('setStorage', [5, 6]), ('copyCode', [FAB]), ('swapCode', [FAB])]:
            res.append(case(rev, tx(price=r.choice([0, 1])), world(), [call(CALL, DRIVER), call(CALL, SYSTEM, 0, sysin(m, ALICE, *v)), look(ALICE), r.choice([ret(), revert(3)])]))
    return res

def f05(c):
    r = rnd(5)
    judge(c, run_cases(c, system_cases(r, T(120, 4000))), lambda d: 'F05' in d.properties())
    # The known deviation: the account of the transaction's origin is not protected.
    # It may differ in nothing else.
    cs = origin_cases(r)
    strict = run_cases(c, cs, 'o')
    lenient = {d.case['id'] for d in run_cases(c, cs, 'o', origin=False, report=False)}
    judge(c, strict, lambda d: 'F05' in d.properties() or d.case['id'] not in lenient,
          lambda d: None if d.case['id'] in lenient else 'state-contract-origin')


# --- F06: precompiled contracts ---------------------------------------------------------
def precompile_cases(r, n):
    res = []
    for rev in REVS:
        fork = 50 if rev == 5 else 40 if rev >= 1 else 30
        for i in range(0, 13):
            for kind in [CALL, STATIC, DELEGATE, CALLCODE]:
                for data in [[], [1], [255, 3], [254], [0] * 32]:
                    if not THOROUGH and r.random() < .5: continue
                    cost = fork + 100 * i + 3 * len(data)
                    g = r.choice([cost - 1, cost, cost, cost + 1, cost + 1000, 0, 10**6])
                    v = r.choice([0, 0, 1, 1000, 1001])
                    s = [sstore(1, 2), call(kind, pre(i) if i else addr(1, 0), v, data, g, 0, r.choice([None, pre(2)])), sstore(1, 3), r.choice([ret(), revert(4)]), log(2), r.choice([ret(), revert(4)])]
                    res.append(case(rev, tx(price=0), world_with(acc(pre(i), r.choice([0, 0, 3]), r.choice([0, 0, 1]), r.choice([[], [], [0x60]]))) if i else world(), s))
            data = r.choice([[], [1], [255], [254]])
            g = 21000 + 16 * len(data) + fork + 100 * i + 3 * len(data)
            res.append(case(rev, tx(to=pre(i) if i else addr(1, 1), input=data, gas=g + r.choice([-1, 0, 1, 10**5]), value=r.choice([0, 0, 7])), world(), [ret()]))
        # the code address counts only where code is taken from there
        for kind in [CALL, STATIC]: res.append(case(rev, tx(price=0), world(), [call(kind, DON, 0, [1], 10**6, 0, pre(2)), sstore(1, 1), ret(), ret()]))
        for a in ([1] + [0] * 18 + [1], [0] * 18 + [1, 1], [0] * 19 + [255], [0] * 10 + [1] + [0] * 8 + [2]):
            for kind in [CALL, STATIC, DELEGATE, CALLCODE]: res.append(case(rev, tx(price=0), world(), [call(kind, a, 0, [1], 10**6), sstore(1, 1), ret(), ret()]))
    for k in range(n):
        res.append(case(r.choice(REVS), tx(price=0), world(), random_script(r, r.choice([3, 6, 12]), dict(pre=12, sys=0, create=1))))
    return res

def f06(c):
    r = rnd(6)
    judge(c, run_cases(c, precompile_cases(r, T(120, 4000))), lambda d: 'F06' in d.properties())


# --- F07: access lists ---------------------------------------------------------------------
def access_cases(r, n):
    res = []
    for rev in REVS:
        for to in [CON, BOB, NEW, None, pre(9), SYSTEM]:
            for al in [None, [], [(DON, [])], [(DON, [1, 2]), (NEW, [0, MAX])], [(CON, [1]), (CON, [1, 2])], [(ALICE, [5]), (pre(10), []), (pre(11), [1])]]:
                for s in ([sstore(1, 2), access(EVE), ret(True, [], 10**6)], [access(EVE), revert(5)], [call(CREATE, None, r.choice([0, 10**9])), access(NEW), r.choice([ret(True, [1]), revert(5), halt()]), call(CREATE2, None, 0, [1]), r.choice([ret(True, [1]), revert(5)]), r.choice([ret(), revert(4)])]):
                    if not THOROUGH and r.random() < .3: continue
                    res.append(case(rev, tx(to=to, al=al, gas=10**6, price=r.choice([0, 1])), world(), s))
        # too little gas, rejected
        for g in [10**5, 23399, 21000]: res.append(case(rev, tx(al=[(DON, [1])], gas=g), world(), [ret()]))
        res.append(case(rev, tx(al=[(DON, [1])], nonce=1), world(), [ret()]))
    for k in range(n):
        t = tx(to=r.choice([CON, None]), al=random_al(r), gas=10**6, price=0)
        res.append(case(r.choice(REVS), t, world(), random_script(r, r.choice([3, 6, 12]), dict(access=8, slot=6, create=6)), [tx(nonce=1, al=random_al(r), price=0)] if r.random() < .4 else []))
    return res

def f07(c):
    r = rnd(7)
    judge(c, run_cases(c, access_cases(r, T(150, 4000))), lambda d: 'F07' in d.properties())


# --- the model of the machine -------------------------------------------------------------
INVARIANTS = ['Conserved', 'Bounded', 'RolledBack', 'ReadOnly', 'Depths', 'GasBound', 'Nested', 'Created']
def explored(c, module, cfg, invariants, length, n, keep=lambda rev: True):
    """Explores a module like FloriaMC: (a sample of) its behaviours as cases."""
    r = tlc_must(module, dict(dict(Hash='<- Sym', NewAddress='<- SymAddress', NewAddress2='<- SymAddress2', Length=str(length), Limit=str(T(1, 2)), MaxDepth='<- Limit', OriginRule='TRUE', Show='TRUE'), **cfg),
                 spec='Spec', invariants=INVARIANTS + invariants, properties=['Monotonic', 'Ends_'])
    c.model(r)
    d = json.loads(next(m for m in re.findall(r'"(\{.*\})"', r.out)).replace('\\"', '"'))
    w = [{'a': x[0], 'b': x[1], 'n': x[2], 'c': x[3], 's': []} for x in d['world']]
    def op(i, k):
        x = d['ops'][i - 1]
        if x['o'] == 'sstore': return sstore(1, length - k)
        if x['o'] == 'log': return log(length - k)
        if x['o'] == 'ret':
            g = int.from_bytes(bytes(x.get('ref', [])), 'big')
            return ret(x['ok'], x['out'], 10**12 if x['gas'] else 0, -g if 'neg' in x else g)
        if x['o'] == 'destroy': return destroy(x['to'])
        return {'o': 'call', 'kind': x['kind'], 'to': x['to'], 'value': x['value'], 'input': x['input'], 'gas': x['gas'], 'salt': [], 'ca': ZERO}
    runs = sorted({m for m in r.msgs if m.startswith('<<"RUN"')})
    c.note('behaviours', len(runs))
    rnd(33).shuffle(runs)
    cs = []
    for m in runs:
        rev, t, done = re.match(r'<<"RUN", (\d+), (\d+), <<(.*)>>>>', m).groups()
        if not keep(int(rev)): continue
        if len(cs) >= n: break
        t = dict(d['txs'][int(t) - 1])
        cs.append(case(int(rev), t, w, [op(int(i), k) for k, i in enumerate(done.replace(' ', '').split(',')) if i]))
    return cs

def behaviours(c, accept):
    """Explores FloriaMC and replays (a sample of) its behaviours into the real processor."""
    cs = explored(c, 'FloriaMC', {}, [], T(2, 3), T(900, 12000))
    judge(c, run_cases(c, cs, 'm'), accept)
