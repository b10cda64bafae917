"""C02: the LRU cache is linearizable under concurrency."""
import json, re, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from vlib import *


def linearizable(c, lines, what):
    """Checks histories with TLC; returns the number of good ones."""
    if not lines: return
    f = spath('hist-%s.ndjson' % what)
    open(f, 'w').write('\n'.join(lines) + '\n')
    r = tlc('LruLin', invariants=['Bounded'], env={'TRACES': f})
    if not r.ok: raise CheckError(r.out[-3000:])
    c.model(r)
    good = {int(m.group(1)) for m in (re.match(r'<<"LIN", (\d+)>>', l) for l in r.msgs) if m}
    for i, l in enumerate(lines, 1):
        if i not in good:
            h = json.loads(l)
            c.violation('%s: history has no linearization: %s' % (what, ' '.join('%(op)s(%(k)s,%(v)s)=%(r)s@[%(inv)s,%(res)s]' % o for o in h['ops'])), h)
    c.traces(len(lines))
    c.note('histories_' + what, len(lines))


def check(c):
    src = VERIF + '/drivers/lru_conc.cc'
    a, b = spath('sched'), spath('threads')
    models = [dict(Keys='1..2', Vals='1..1', Cap=2, Threads='1..3' if THOROUGH else '1..2', Locking='TRUE'), dict(Keys='1..3', Vals='1..2' if THOROUGH else '1..1', Cap=2, Threads='1..2', Locking='TRUE')]
    inv = ['Refines', 'Exclusive', 'ResultsRight', 'Bounded']
    jobs = [lambda: cxx_build([src], a, ['-O1', '-g'], absl_libs()),
            lambda: cxx_build([src], b, ['-O1', '-g', '-fsanitize=thread', '-DREAL_THREADS'], absl_libs())]
    jobs += [lambda m=m: tlc_must('LruConc', m, invariants=inv, workers=3) for m in models]
    # The model is sensitive: without the lock it must fail.
    jobs.append(lambda: tlc('LruConc', dict(models[0], Locking='FALSE'), invariants=['Refines', 'ResultsRight'], workers=1))
    res = parallel(jobs)
    for r in res[2:-1]: c.model(r)
    if not res[-1].invariant: raise CheckError('the model does not notice missing locks')
    shards = 8
    progs, scheds = (120, 8000) if THOROUGH else (25, 2500)
    runs = [lambda i=i: ('sched',) + run([a, 'sched', str(SEED * 1000 + i), str(progs), str(scheds)], timeout=500) for i in range(shards)]
    runs += [lambda i=i: ('threads',) + run([b, 'threads', str(SEED * 1000 + i), str(30000 if THOROUGH else 5000)], timeout=300,
             env={'TSAN_OPTIONS': 'halt_on_error=1 exitcode=66 second_deadlock_stack=1'}) for i in range(2)]
    lines = {'sched': [], 'threads': []}
    total = 0
    for i, (kind, rc, o, e) in enumerate(parallel(runs)):
        if rc == 71:
            c.note('controlled_schedules', 'abandoned: the code waits without a scheduling point')
            continue
        if rc != 0:
            w = 'data race' if 'WARNING: ThreadSanitizer: data race' in e else 'no progress' if rc is None else 'failure'
            c.violation('%s (%s): %s' % (w, kind, e[-1500:]), {'mode': kind, 'stderr': e[-6000:]})
            continue
        lines[kind] += o.splitlines()
        m = re.search(r'RUNS (\d+)', e)
        total += int(m.group(1)) if m else 0
    c.note('schedules_executed', total)
    for kind in lines:
        ls = sorted(set(lines[kind]))
        lim = 60000 if THOROUGH else 9000
        import random
        if len(ls) > lim: ls = random.Random(SEED).sample(ls, lim)
        linearizable(c, ls, kind)
        if ls: c.sample(json.loads(ls[0]))


main(check, 'C02')
