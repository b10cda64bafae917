"""C03: cached hashes equal freshly computed hashes."""
import json, random, re, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from vlib import *


def check(c):
    src = [VERIF + '/drivers/sha3.cc', REPO + '/cpp/vm/evmzero/uint256.cc']
    src = [s for s in src if os.path.exists(s)]
    vs = [('seq', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all']), ('threads', ['-O1', '-g', '-fsanitize=thread'])]
    bins = parallel([lambda v=v: cxx_build(src, spath(v[0]), v[1], absl_libs()) for v in vs])
    # The cache itself is the model of C01/C02; here its use as a memo table.
    n = 20000 if THOROUGH else 4000
    jobs = [lambda s=s: ('seq',) + run([bins[0], 'seq', str(SEED * 10 + s), str(n)], timeout=200) for s in range(3)]
    jobs += [lambda s=s: ('threads',) + run([bins[1], 'threads', str(SEED * 10 + s), str(n // 4)], timeout=300, env={'TSAN_OPTIONS': 'halt_on_error=1 exitcode=66'}) for s in range(2)]
    seen, calls = {}, 0
    for kind, rc, o, e in parallel(jobs):
        if rc != 0:
            c.violation('hashing through the cache failed (%s): %s' % (kind, e[-1500:] if rc is not None else 'time-out'), {'stderr': e[-5000:]})
        for l in o.splitlines():
            a, _, b = l.partition(' ')
            if len(b) == 64:
                seen.setdefault('' if a == '-' else a, set()).add(b)
                calls += 1
    # Prefer inputs with several answers, then the lengths that are cached.
    rng = random.Random(SEED)
    keys = sorted(seen)
    rng.shuffle(keys)
    keys.sort(key=lambda k: (len(seen[k]) == 1, len(k) not in (64, 128)))
    keys = keys[:20000 if THOROUGH else 2500]
    f = spath('obs.ndjson')
    with open(f, 'w') as h:
        for k in keys: h.write(json.dumps({'key': list(bytes.fromhex(k)), 'hash': [list(bytes.fromhex(x)) for x in sorted(seen[k])]}) + '\n')
    r = tlc('Sha3Trace', env={'TRACES': f})
    if not r.ok: raise CheckError(r.out[-3000:])
    c.model(r)
    c.traces(calls)
    c.note('distinct_inputs_hashed_by_specification', len(keys))
    if keys: c.sample({'input': keys[0], 'hash': sorted(seen[keys[0]])})
    for l in r.msgs:
        m = re.match(r'<<"BAD", (\d+), (.*)>>', l)
        if m:
            k = keys[int(m.group(1)) - 1]
            c.violation('hash of %s: %s, specification %s' % (k, sorted(seen[k]), m.group(2)))
    for k in seen:
        if len(seen[k]) > 1 and k not in keys: c.violation('input %s has several hashes %s' % (k, sorted(seen[k])))


main(check, 'C03')
