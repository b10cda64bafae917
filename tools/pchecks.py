"""P01: profiles of the C++ interpreter."""
import json, random, re
import evmcases as G
from evmgen import Case, OPS, NAMES, write
from echecks import T
from vlib import *
from evmcheck import build, PLAIN

def rnd(k): return random.Random(SEED * 1000 + 500 + k)

ADD, SLOAD, CALL, CREATE = 0x01, 0x54, 0xf1, 0xf0


def close(evs):
    """Ends what is still under way, innermost first."""
    st = []
    for e, o, d, dt in evs:
        if e == 'enter': st.append([d, None])
        elif e == 'pre': st[-1][1] = o
        elif e == 'post': st[-1][1] = None
        elif e == 'leave': st.pop()
    evs = list(evs)
    while st:
        if st[-1][1] is not None: evs.append(('post', st[-1][1], 0, 3))
        evs.append(('leave', 0, 0, 5))
        st.pop()
    return evs


def random_history(r, n, ops, calls):
    """A random history of events."""
    evs, st = [], []
    dt = lambda: r.choice([1, 1, 2, 7, 100, r.randint(1, 5000)])
    while len(evs) < n or st:
        x = r.random()
        if not st:
            if x < .15: evs.append((r.choice(['reset', 'save', 'merge', 'load']), 0, 0, dt()))
            else:
                st.append([r.choice([0, 0, 0, 1, 5, 1023, 1024, r.randint(0, 1024)]), None, False])
                evs.append(('enter', 0, st[-1][0], dt()))
        elif st[-1][1] is None:
            if x < .2 or len(evs) > n + 200:
                evs.append(('leave', 0, 0, dt()))
                st.pop()
                if st: st[-1][2] = True
            else:
                st[-1][1:] = [r.choice(calls) if r.random() < .4 else r.choice(ops), False]
                evs.append(('pre', st[-1][1], 0, dt()))
        elif st[-1][1] in calls and not st[-1][2] and x < .6 and st[-1][0] < 1024 and len(evs) < n + 50:
            st.append([st[-1][0] + 1, None, False])
            evs.append(('enter', 0, st[-1][0], dt()))
        else:
            evs.append(('post', st[-1][1], 0, dt()))
            st[-1][1] = None
    return evs


def deep(r, calls):
    """Nested to the depth limit."""
    evs = []
    for d in range(1025): evs += [('enter', 0, d, r.randint(1, 9)), ('pre', ADD, 0, 1), ('post', ADD, 0, 2), ('pre', r.choice(calls), 0, r.randint(1, 9))]
    op = [e[1] for e in evs if e[0] == 'pre' and e[1] != ADD]
    for d in reversed(range(1025)): evs += [('post', op[d], 0, r.randint(1, 9)), ('leave', 0, 0, r.randint(1, 9))]
    return evs


def p01(c):
    r = rnd(21)
    jobs = [lambda: cxx_build([VERIF + '/drivers/profiler.cc', REPO + '/cpp/vm/evmzero/stack.cc', REPO + '/cpp/vm/evmzero/memory.cc'], spath('profiler'), flags=['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']), lambda: build(PLAIN)]
    size = 8 if THOROUGH else 6
    for mode, ops in (('full', (ADD, CALL)), ('ext', (ADD, SLOAD, CALL))):
        jobs.append(lambda mode=mode, ops=ops: tlc_must('ProfilerMC', dict(Mode='"%s"' % mode, Ops='{%s}' % ', '.join(map(str, ops)), Size=size, MaxNest=2), invariants=['Sound', 'Parts'], workers=3))
    prof, vm, *models = parallel(jobs)
    hist = []
    for mode, m in zip(('full', 'ext'), models):
        c.model(m)
        got = [[tuple(y.strip().strip('"') for y in x.split(',')) for x in re.findall(r'<<("[^>]*)>>', l[len('<<"H", '):])] for l in m.msgs if l.startswith('<<"H"')]
        got = [[(e, int(o), int(d), int(dt)) for e, o, d, dt in h] for h in got]
        c.note('model_histories_' + mode, len(got))
        cap = 40000 if THOROUGH else 2500
        hist += [(mode, close(h)) for h in (got if len(got) <= cap else r.sample(got, cap))]
    used = [v for v in NAMES]
    calls = [OPS[x] for x in ('CREATE', 'CREATE2', 'CALL', 'CALLCODE', 'DELEGATECALL', 'STATICCALL')]
    rest = [v for v in used if v not in calls]
    for i in range(60 if not THOROUGH else 1500):
        hist.append((r.choice(['full', 'ext']), random_history(r, r.choice([20, 60, 200]), rest if i % 2 else r.sample(rest, 4), calls)))
    for mode in ('full', 'ext'): hist.append((mode, deep(r, calls)))
    one = lambda o: [('enter', 0, 0, 1), ('pre', o, 0, 2), ('post', o, 0, 3), ('leave', 0, 0, 1)]
    for mode in ('full', 'ext'):            # every instruction is part of merged, copied and reset profiles
        for o in used: hist.append((mode, one(o) + [('save', 0, 0, 1), ('merge', 0, 0, 1), ('load', 0, 0, 1)] + one(o) + [('merge', 0, 0, 1), ('reset', 0, 0, 1), ('merge', 0, 0, 1)]))
    ev = spath('events')
    with open(ev, 'w') as f:
        for i, (mode, h) in enumerate(hist):
            f.write('h %s %d\n' % (mode, i))
            for e, o, d, dt in h: f.write('%s %d %d\n' % (e, d if e == 'enter' else o, dt))
            f.write('end\n')
    tr = spath('profiler.ndjson')
    rc, o, e = run([prof, ev, tr, spath('dump.txt')], timeout=200, env={'ASAN_OPTIONS': 'detect_leaks=0'})
    if rc != 0:
        c.violation('the profiler crashed or hung (exit code %s)\n%s' % (rc, e[-2000:]), {'stderr': e[-6000:]})
        return
    t = tlc('ProfilerTrace', view='View', env={'TRACE': tr}, heap='8g')
    if not t.ok: raise CheckError('TLC failed on the trace:\n' + t.out[-3000:])
    c.model(t); c.traces(len(hist))
    for m in t.msgs:
        if m.startswith('<<"BAD"'):
            i = int(re.match(r'<<"BAD", "(\d+)"', m).group(1))
            c.violation('a profile differs from the specification (history %d): %s' % (i, m[:600]), {'history': hist[i], 'report': m[:4000]})
    executions(c, r, vm)


def executions(c, r, exe):
    """Whole executions, nested ones included, by the real interpreter."""
    n = T(1, 12)
    G_ = G.programs(r, 60 * n) + G.byte_soup(r, 60 * n) + G.calls(r, 30 * n)[:30 * n] + G.creates(r, 15 * n)[:15 * n] + G.jumps(r, 40 * n)[:40 * n] \
        + r.sample(G.opcodes_by_revision(r), 60 * n) + G.storage_random(r, 10 * n)[:10 * n] + G.static_mode(r, 10 * n)[:10 * n]
    cs = [x for x in G_ if x.depth < 900 and not x.stack]
    # loops and jumps without gas for their destination
    J = bytes.fromhex
    for code in ('5b600056', '60005b60010180600a1160025700', '6003565b00', '60006005575b00', '60016005575b00', '600160055700', '56', '600056', '60ff56', '600456fe5b5b5b00'):
        for gas in (0, 3, 10, 11, 12, 13, 14, 19, 20, 300, 2000): cs.append(Case('jump%d-%s' % (gas, code), J(code), gas=gas, rev=r.randrange(6)))
    pre = spath('cases-profile')
    write(cs, pre)
    callers = [i for i, x in enumerate(cs) if any(b in x.code for b in (0xf1, 0xf2, 0xf4, 0xfa, 0xf0, 0xf5))]
    plan = []
    order = list(range(len(cs)))
    r.shuffle(order)
    h = 0
    while order:
        take = [order.pop() for _ in range(min(len(order), r.choice([1, 1, 3, 8])))]
        mode = r.choice(['full', 'full', 'ext'])
        plan.append('h %d' % h); h += 1
        plan.append('opt %s 1' % mode)
        for k in take:
            x = r.random()
            if x < .06: plan.append('reset')
            elif x < .1: plan.append('opt %s %d' % (r.choice(['log', 'full', 'ext']), r.random() < .5))
            elif x < .2: plan.append('dump')
            nested = [r.choice(callers if r.random() < .6 else range(len(cs))) for _ in range(r.choice([0, 1, 3, 10]))]
            plan.append('exec %d %d %s' % (r.choice([0, 0, 0, 0, 1, 17]), k, ' '.join(map(str, nested))))
        plan += ['dump', 'reset', 'dump'] if r.random() < .2 else ['dump']
        plan.append('end')
    open(pre + '.plan', 'w').write('\n'.join(plan) + '\n')
    rc, o, e = run([exe, pre + '.txt', pre + '.hists', 'profile', pre + '.plan'], timeout=200, stdout_file='/dev/null')
    if rc != 0:
        c.violation('an execution with profiles crashed or hung (exit code %s, case %s)\n%s' % (rc, open(pre + '.hists.case').read().strip(), e[-2000:]), {'stderr': e[-6000:]})
        return
    t = tlc('EvmProfile', view='View', env={'CASES': pre + '.ndjson', 'HISTS': pre + '.hists'}, heap='8g')
    if not t.ok: raise CheckError('TLC failed on the trace:\n' + t.out[-3000:])
    c.model(t); c.traces(h)
    c.note('open', sum(m.startswith('<<"OPEN"') for m in t.msgs)); c.note('executed_cases', len(cs)); c.note('execution_histories', h)
    lines = open(pre + '.hists').read().splitlines()
    for m in t.msgs:
        if m.startswith('<<"BAD"'):
            i = int(re.match(r'<<"BAD", "(\d+)"', m).group(1))
            items = json.loads(lines[i])['items']
            codes = {x['c']: cs[x['c'] - 1].text() for x in items if x['t'] == 'exec'}
            c.violation('a profile of executions differs from the specification (history %d): %s' % (i, m[:500]), {'items': items, 'cases': codes, 'report': m[:4000]})
