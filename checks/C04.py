"""C04: byte-string hashing is a pure function of all key bytes."""
import json, random, re, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from vlib import *

SIZES = list(range(0, 42)) + [64, 65, 127, 128]


def keys(rng):
    for n in SIZES:
        yield bytes(n)
        yield b'\xff' * n
        base = bytes(rng.randrange(256) for _ in range(n))
        yield base
        for i in range(n):  # every byte matters
            for d in ((1, 0x80, rng.randrange(1, 256)) if THOROUGH else (rng.choice([1, 0x80, 0x10]),)):
                yield base[:i] + bytes([base[i] ^ d]) + base[i + 1:]
                if n > 1: yield bytes(i) + bytes([d]) + bytes(n - i - 1)
        for _ in range(30 if THOROUGH else 4): yield bytes(rng.randrange(256) for _ in range(n))


def check(c):
    src = [VERIF + '/drivers/hashbytes.cc']
    variants = [['-O1', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all'], ['-O3', '-march=native'], ['-O0']]
    bins = parallel([lambda i=i, v=v: cxx_build(src, spath('hb%d' % i), v) for i, v in enumerate(variants)])
    ks = list(dict.fromkeys(keys(random.Random(SEED))))
    text = ''.join(k.hex() + '\n' for k in ks)
    outs = parallel([lambda b=b: run([b], stdin=text, timeout=120) for b in bins])
    for (rc, o, e), v in zip(outs, variants):
        if rc != 0: c.violation('hashing failed (%s): %s' % (' '.join(v), e[-1500:] if rc is not None else 'time-out'), {'stderr': e[-4000:]})
    if c.violations: return
    rows = {}
    for rc, o, e in outs:
        for i, l in enumerate(o.splitlines()):
            r = json.loads(l)
            rows.setdefault(i, {'key': r['key'], 'hash': []})['hash'] += r['hash']
    for r in rows.values(): r['hash'] = [json.loads(h) for h in dict.fromkeys(map(json.dumps, r['hash']))]
    f = spath('obs.ndjson')
    open(f, 'w').write('\n'.join(json.dumps(rows[i]) for i in range(len(ks))) + '\n')
    r = tlc('HashBytes', invariants=['Limbs', 'Agrees'], env={'TRACES': f})
    if not r.ok: raise CheckError(r.out[-3000:])
    c.model(r)
    c.traces(len(ks))
    c.note('hashes_compared', len(ks) * 27)
    for l in r.msgs:
        m = re.match(r'<<"BAD", (\d+), (\d+), (.*)>>', l)
        if m:
            o = rows[int(m.group(1)) - 1]
            c.violation('hash of %s: %s, specification %s' % (bytes(o['key']).hex(), o['hash'], m.group(3)), o)
    # Distinct keys of one size must not collide here: every byte takes part.
    seen = {}
    for i, k in enumerate(ks):
        h = (len(k), json.dumps(rows[i]['hash']))
        if h in seen: c.note('equal_hashes', [seen[h].hex(), k.hex()])
        seen[h] = k
    c.sample(rows[len(ks) // 2])


main(check, 'C04')
