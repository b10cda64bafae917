"""C01: the LRU cache is an exact bounded least-recently-used map."""
import json, re, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from vlib import *

EDGE = re.compile(r'^<<"E", (.*), "(get|ins|goi|clr)", (\d+), (\d+), <<(.*?)>>, (.*)>>$')


def parse_graph(msgs):
    """TLC's printed edges -> numbered graph for the driver."""
    ids, keys, edges = {}, [], set()
    def sid(t):
        if t not in ids:
            ids[t] = len(ids)
            keys.append(re.findall(r'<<(\d+), \d+>>', t))
        return ids[t]
    sid('<<>>')
    for l in msgs:
        m = EDGE.match(l)
        if not m: continue
        s, op, k, v, r, t = m.groups()
        rr = {'"none"': '-1', '"ok"': '-3'}.get(r) or r.split(', ')[1]
        edges.add((sid(s), {'get': 'g', 'ins': 'i', 'goi': 'o', 'clr': 'c'}[op], k, v, rr, sid(t)))
    return ids, keys, edges


def check(c):
    drv = spath('lru_seq')
    flags = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
    def build():
        objs = parallel([lambda i=i: cxx_compile([VERIF + '/drivers/lru_seq.cc'], flags + ['-DPART=%d' % i])[0] for i in range(6)])
        return cxx_link(objs, drv, flags, libs=absl_libs())
    caps = [(2, 4, 2), (3, 5, 1)] + ([(4, 6, 1), (3, 5, 2)] if THOROUGH else [])
    def graph(cap, nk, nv):
        def f():
            return tlc_must('LruModel', dict(Keys='1..%d' % nk, Vals='1..%d' % nv, Cap=cap, EmitEdges='TRUE'), view='View', invariants=['Bounded', 'Recency', 'FullWhenSeen', 'Refines'], workers=2)
        return f
    def full():
        k = (3, 5, 1) if THOROUGH else (3, 4, 1)
        return tlc_must('LruModel', dict(Keys='1..%d' % k[1], Vals='1..%d' % k[2], Cap=k[0], EmitEdges='FALSE'), view='FullView', invariants=['Bounded', 'Recency', 'FullWhenSeen', 'Refines'], workers=4)
    res = parallel([build, full] + [graph(*x) for x in caps])
    c.model(res[1])
    jobs = []
    for (cap, nk, nv), r in zip(caps, res[2:]):
        c.model(r)
        ids, keys, edges = parse_graph(r.msgs)
        if len(ids) != r.distinct:
            raise CheckError('edge extraction lost states: %d of %d' % (len(ids), r.distinct))
        g = spath('graph-%d-%d-%d' % (cap, nk, nv))
        with open(g, 'w') as f:
            f.write('%d %d\n' % (len(ids), len(edges)))
            for k in keys: f.write('%d %s\n' % (len(k), ' '.join(k)))
            for e in sorted(edges): f.write(' '.join(map(str, e)) + '\n')
        c.note('graph_cap%d_keys%d_vals%d' % (cap, nk, nv), {'states': len(ids), 'edges': len(edges)})
        for variant in (range(5) if cap < 4 else range(2)):
            def job(cap=cap, variant=variant, g=g):
                return ('replay capacity %d variant %d' % (cap, variant),) + run([drv, 'replay', str(cap), str(variant), g], timeout=300)
            jobs.append(job)
    # Long recorded histories.
    traces = []
    n = 3000 if THOROUGH else 400
    for cap, variants in ((2, range(5)), (3, range(5)), (4, (0, 1)), (7, (1,)), (16, (2,)), (33, (3,)), (64, (4,)), (100, (0,))):
        for variant in variants:
            def job(cap=cap, variant=variant):
                return ('trace capacity %d variant %d' % (cap, variant),) + run([drv, 'trace', str(cap), str(variant), str(SEED * 100 + variant), str(n + 8 * cap), str(cap + 1 + (variant + SEED) % 4)], timeout=120)
            traces.append(job)
    tests = 0
    for name, rc, o, e in parallel(jobs):
        m = re.search(r'REPLAYED (\d+) tests (\d+)', o)
        if m: tests += int(m.group(1))
        if rc != 0:
            c.violation('%s: the real cache departs from the specification: %s' % (name, (o + e)[:1500] if rc is not None else 'no answer within the time limit'), {'driver': 'drivers/lru_seq.cc', 'run': name, 'output': (o + e)[-4000:]})
    c.traces(tests)
    with open(spath('traces.ndjson'), 'w') as f:
        for name, rc, o, e in parallel(traces):
            if rc != 0:
                c.violation('%s: the real cache failed: %s' % (name, e[:1500] if rc is not None else 'no answer within the time limit'), {'run': name, 'output': (o + e)[-4000:]})
            else:
                f.write(o)
    r = tlc('LruTrace', view='View', invariants=['Bounded'], env={'TRACES': spath('traces.ndjson')})
    if not r.ok: raise CheckError(r.out[-3000:])
    c.model(r)
    c.traces(len(traces))
    lines = open(spath('traces.ndjson')).read().splitlines()
    for l in r.msgs:
        m = re.match(r'<<"BAD", (\d+), (\d+), (.*)>>$', l)
        if m:
            t = json.loads(lines[int(m.group(1)) - 1])
            c.violation('recorded history %s departs from the specification at operation %s: %s' % (t['id'], m.group(2), m.group(3)), {'history': t['ops'][:int(m.group(2))], 'cap': t['cap']})
    t = json.loads(lines[0]) if lines else None
    if t: c.sample({'id': t['id'], 'first_operations': t['ops'][:6]})
    c.note('replayed_tests', tests)


main(check, 'C01')
