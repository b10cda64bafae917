"""The checks of executions through the geth adapter (A01, A02)."""
import itertools, json, random, re
from fcases import *
from vlib import *
import fchecks as F

T = lambda quick, thorough: thorough if THOROUGH else quick
def rnd(k): return random.Random(SEED * 1000 + 700 + k)
G = os.path.join(VERIF, 'drivers/go/gethadapter')
RULES = dict(F.HASHES, Enter='<- GEnter', Leave='<- GLeave', Begin='<- GBegin', End='<- GEnd', DriverRule='<- GDriverRule')


def run_cases(c, cases, proc, name='g'):
    """Runs the cases on the real adapter and lets TLC compare: the differences."""
    pkg = 'go/zz_verif_gethadapter/'
    exe = go_build('./' + pkg, spath('gethadapter'), {pkg + 'main.go': F.D + '/main.go', pkg + 'extra.go': G + '/extra.go'}, go_mod())
    for i, x in enumerate(cases): x['id'] = '%s%d' % (name, i)
    f = spath('cases.ndjson')
    open(f, 'w').write(''.join(json.dumps(x) + '\n' for x in cases))
    rc, o, e = run([exe, f, spath('runs.ndjson')], timeout=300, env=dict(os.environ, PROC=proc))
    if rc != 0:
        cur = open(spath('runs.ndjson') + '.case').read()
        c.violation('case %s %s: %s' % (cur, 'did not end' if rc is None else 'crashed', e[:1500]), {'case': [x for x in cases if x['id'] == cur], 'stderr': e[-6000:]})
        return []
    r = tlc('GethAdapterTrace', dict(RULES, OriginRule='TRUE', HasSystem='TRUE' if proc == 'opera' else 'FALSE', Destroyed='<- GDestroyed', KindShown='<- GKindShown'), view='View', env={'CASES': f, 'RUNS': spath('runs.ndjson')}, heap='8g')
    if not r.ok: raise CheckError('TLC failed on GethAdapterTrace:\n' + r.out[-3000:])
    c.model(r)
    c.traces(len(cases))
    c.note('events_' + proc, r.distinct)
    if cases: c.sample(json.dumps({k: cases[len(cases) // 2][k] for k in ('rev', 'tx', 'script')})[:1500])
    byid = {x['id']: x for x in cases}
    return [F.Diff(m, byid) for m in r.msgs if m.startswith('<<"BAD"')]


# Everything a frame can do, with refunds of either sign.
W = dict(tstore=2, slot=1, destroy=1, access=2, put=1, log=3, sys=0, refs=[0, 0, 1, -1, 4800, -4800, 20000, 10**8])
M64 = 2**64 - 1

def supported(cases, revs):
    """Cases of other checks with revisions that are supported, and senders whose nonce can grow."""
    res = []
    for x in cases:
        if any(int.from_bytes(bytes(t['nonce']), 'big') == M64 for t in [x['tx']] + x['more']): continue
        if any(int.from_bytes(bytes(a['n']), 'big') == M64 and a['a'] == x['tx']['sender'] for a in x['world']): continue
        res.append(x if x['rev'] in revs else dict(x, rev=list(revs)[x['rev'] % len(revs)]))
    return res

def pick(r, xs, n):
    """At most n of the cases."""
    xs = list(xs)
    r.shuffle(xs)
    return xs[:n]


def tree_cases(r, n, revs, weights):
    res = []
    for k in range(n):
        p = r.choice([0, 0, 1, 3])
        t = tx(value=r.choice([0, 0, 5, 2000]), price=p, to=r.choice([CON, CON, CON, CON, DON, BOB, None, NEW, pre(4), SYSTEM]), input=F.random_input(r, r.randrange(3)), al=F.random_al(r))
        w = world()
        if r.random() < .15: w = F.world_with(acc(BOB, MAX - r.choice([0, 1, 6, 7]), 3), acc(DON, MAX, 1, [0x60, 2]))
        res.append(case(r.choice(revs), t, w, random_script(r, r.choice([1, 2, 3, 5, 8, 13, 21, 34]), weights and r.choice([weights, weights, dict(weights, call=12, create=5), dict(weights, revert=8, halt=4), dict(weights, destroy=6, create=6)])), [tx(nonce=1, price=p)] if r.random() < .2 else []))
    return res


def static_cases(r, n):
    """Read-only frames, and what they call in turn."""
    res = []
    odd = [addr(1, i) for i in (0, 1, 4, 9, 10)] + [addr(i) for i in (10, 11, 18, 255)] + [[1] + [0] * 18 + [3], [0] * 10 + [1] + [0] * 8 + [2]]
    for rev in REVS:
        fork = 50 if rev == 5 else 40 if rev >= 1 else 30
        for outer in [[STATIC], [STATIC, CALL], [STATIC, DELEGATE], [CALL, STATIC, CALLCODE], [DELEGATE, STATIC]]:
            for kind in [CALL, STATIC, DELEGATE, CALLCODE]:
                for to in r.sample(odd, 3) + r.sample([CON, DON, BOB, NEW, EVE, SYSTEM, ALICE], 3) + [pre(r.randrange(1, 13))]:
                    if not THOROUGH and r.random() < .5: continue
                    i = to[19] if to[:19] == [0] * 19 else 0
                    cost = fork + 100 * i + 3
                    s = [call(k, r.choice([FAB, CON]), 0, [1], 2**50) for k in outer]
                    # with code at the address, or none
                    w = F.world_with(acc(to, r.choice([0, 3]), 1, r.choice([[], [0x60, 1], [0x60, 1]]))) if to in odd else world()
                    s += [call(kind, to, 0, r.choice([[1], [1], [255]]), r.choice([cost - 1, cost, cost, 10**5, 10**5, 0, 700, 2**55]), 0, r.choice([None, None, pre(4), DON]))]
                    s += [r.choice([ret(True, [4], 500), revert(7, [5]), call(CALL, DON, 0, [2], 300)]), look(DON), call(r.choice([STATIC, CALL]), r.choice([NEW, CON, pre(2)]), 0, [1], 10**4), ret(), sstore(1, 3), ret(), call(CALL, DON, 1, [6], 10**5), sstore(1, 9), ret(), ret()]
                    res.append(case(rev, tx(price=0, gas=2**56), w, s))
    return pick(r, res, n)


def refund_cases(r, n):
    """Refunds of frames, taken back by later or inner ones."""
    res = []
    G = 10**6
    for k in range(n):
        s, depth = [], 0
        for _ in range(r.choice([1, 2, 3, 5, 8])):
            if depth and r.random() < .5:
                s.append(r.choice([ret(True, [], 2**40, r.choice([0, 1, 4800, -4800, 15000, -15000, 19900, -19900, 10**12]))] * 5 + [revert(10**4), halt(), ret(False, [], 5, 777)]))
                depth -= 1
            else:
                s.append(call(r.choice([CALL, CALL, DELEGATE, CALLCODE, CREATE]), DON, 0, [1], 10**5))
                depth += 1
        s += [ret(True, [], 2**40, r.choice([0, 0, 4800, 15000, 19900])) for _ in range(depth)]
        s.append(ret(True, [], r.choice([2**40, G - 22000, G - 60000, 0, 10]), r.choice([0, 4800, 15000, 39800, -4800, 10**6])))
        res.append(case(r.choice(REVS), tx(price=r.choice([0, 1, 3]), gas=G, to=r.choice([CON, CON, None])), world(), s, [tx(nonce=1, gas=G)] if r.random() < .3 else []))
    return res


def destroy_cases(r, n):
    res = []
    for k in range(n):
        b = r.choice([BOB, CON, DON, NEW, ALICE])
        s = []
        if r.random() < .4: s += [call(r.choice([CREATE, CREATE2]), None, r.choice([0, 5]), [1], 10**6)]
        elif r.random() < .7: s += [call(r.choice([CALL, CALLCODE, DELEGATE]), r.choice([DON, FAB]), r.choice([0, 7]), [], 10**6)]
        s += [destroy(b), look(b), look(CON)] + r.choice([[], [destroy(r.choice([BOB, NEW, CON]))], [call(CALL, CON, 3), destroy(DON), ret()]])
        s += [r.choice([ret(True, [1]), ret(), revert(4), halt()]), look(DON), r.choice([ret(), ret(), revert(5)]), call(CALL, DON, 1), destroy(b), ret()]
        res.append(case(r.choice(REVS), tx(price=0, value=r.choice([0, 9]), to=r.choice([CON, CON, None])), world(), s, r.choice([[], [tx(nonce=1, price=0)]])))
    return res


def judge(c, diffs):
    for d in diffs:
        c.violation('case %s, event %d (%s, %s): %s differ from the specification\n    %s' % (d.case['id'], d.pos, d.event, d.cat, '/'.join(sorted(d.fields)), d.raw[:1500]), {'case': d.case, 'report': d.raw[:8000]})


def behaviours(c, n, system, keep=lambda rev: True):
    """Explores GethAdapterMC: (a sample of) its behaviours as cases."""
    rules = {k: v for k, v in RULES.items() if k not in F.HASHES}
    return F.explored(c, 'GethAdapterMC', dict(rules, Destroyed='<- GDestroyed', More='<- GMore', HasSystem=system), ['RefundsKept', 'NothingDestroyed', 'OnlyNew'], T(2, 3), n, keep)


# --- A01: the geth adapter ------------------------------------------------------
def a01(c):
    r = rnd(1)
    cs = tree_cases(r, T(250, 6000), REVS, W) + static_cases(r, T(250, 5000)) + refund_cases(r, T(120, 3000)) + destroy_cases(r, T(100, 2000))
    cs += supported(pick(r, F.create_cases(r, T(20, 500)), T(250, 10**6)), REVS)
    cs += pick(r, F.precompile_cases(r, T(10, 500)), T(150, 10**6)) + pick(r, F.message_cases(r, T(20, 500)), T(120, 10**6)) + F.transfer_cases(r, T(100, 10**6))
    cs += pick(r, F.access_cases(r, 10), T(60, 10**6)) + F.deep_cases()[:T(1, 9)]
    cs += behaviours(c, T(300, 8000), 'FALSE')
    judge(c, run_cases(c, cs, 'evm'))


# --- A02: the processor opera -----------------------------------------------------
def a02(c):
    r = rnd(2)
    revs = range(3)
    cs = F.fee_cases(r, T(40, 600)) + pick(r, F.acceptance_cases(r, T(80, 2000)), T(450, 10**6)) + pick(r, F.access_cases(r, T(50, 1500)), T(200, 10**6))
    cs += pick(r, F.system_cases(r, T(60, 2000)), T(450, 10**6)) + F.origin_cases(r) + tree_cases(r, T(150, 4000), revs, dict(W, sys=2)) + refund_cases(r, T(60, 2000)) + destroy_cases(r, T(80, 2000))
    cs += pick(r, F.create_cases(r, 10), T(100, 10**6)) + pick(r, static_cases(r, 100), T(60, 10**6))
    cs += behaviours(c, T(300, 8000), 'TRUE', lambda rev: rev in revs)
    judge(c, run_cases(c, supported(cs, revs), 'opera'))
