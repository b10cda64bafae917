"""J01: jump-target analysis marks exactly the reachable JUMPDEST bytes."""
import json, random, re, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from vlib import *


def codes(rng):
    """Random codes rich in pushes and jump destinations."""
    n = 4000 if THOROUGH else 700
    for i in range(n):
        ln = rng.choice([rng.randrange(0, 8), rng.randrange(30, 40), rng.randrange(60, 200)])
        m = i % 4
        if m == 0: yield bytes(rng.randrange(256) for _ in range(ln))
        elif m == 1: yield bytes(rng.choice([0x5b, 0x5b, 0x5b, rng.randrange(0x5f, 0x81)]) for _ in range(ln))
        elif m == 2:  # one push at every distance from the end, operand full of destinations
            k = rng.randrange(32)
            yield bytes([0x5b] * rng.randrange(4) + [0x60 + k] + [0x5b] * rng.randrange(0, k + 3))
        else: yield bytes(rng.choice([0x5b, 0x5f, 0x60, 0x7f, 0x80, 0x7e, 0x61]) for _ in range(ln))
    for k in range(256): yield bytes([k]) + bytes([0x5b] * 40)
    for k in range(256): yield bytes([k])
    for k in range(33): yield bytes([0x5f + k] + [0x5b] * (k - 1 if k else 0))
    for ln in (255, 256, 257, 1024, 24576, 24577, 49152, 65535, 65536, 65537) if THOROUGH else (255, 256, 257, 1024, 24576, 65537):
        yield bytes(rng.choice([0x5b, 0x5b, 0x60, 0x7f, 0x00, rng.randrange(256)]) for _ in range(ln))


def check(c):
    drv = spath('jt')
    src = [VERIF + '/drivers/jumptargets.cc', REPO + '/cpp/vm/evmzero/opcodes.cc']
    variants = [('g++', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']), ('g++', ['-O3', '-march=native'])]
    alpha = '{0, 91, 95, 96, 97, 127, 128}' if not THOROUGH else '{0, 91, 95, 96, 97, 98, 127, 128}'
    res = parallel([lambda i=i, v=v: cxx_build(src, drv + str(i), v[1], cxx=v[0]) for i, v in enumerate(variants)] +
                   [lambda: tlc_must('JumpDests', dict(Alphabet=alpha, MaxLen=6 if THOROUGH else 5), init='MInit', nxt='MNext', invariants=['Declarative', 'SkipBound', 'Emit'], workers=6, env={'TRACES': '/dev/null'})])
    model = res[-1]
    c.model(model)
    # All codes of the model, with the flags TLC computed, and the random codes judged by TLC.
    want = []
    for l in model.msgs:
        m = re.match(r'<<"C", <<(.*?)>>, <<(.*?)>>>>$', l)
        if m: want.append((bytes(int(x) for x in m.group(1).split(', ') if x), m.group(2).replace(' ', '')))
    if len(want) != model.distinct: raise CheckError('model states were not printed')
    rnd = list(codes(random.Random(SEED)))
    text = ''.join(x.hex() + '\n' for x in [w[0] for w in want] + rnd)
    outs = parallel([lambda i=i: run([drv + str(i)], timeout=120, stdin=text) for i in range(len(variants))])
    for (rc, o, e), v in zip(outs, variants):
        if rc != 0:
            c.violation('the analysis failed (%s): %s' % (' '.join(v[1]), e[-1500:] if rc is not None else 'time-out'), {'stderr': e[-4000:]})
    if c.violations: return
    lines = outs[0][1].splitlines()
    if outs[1][1] != outs[0][1]:
        d = [(a, b) for a, b in zip(lines, outs[1][1].splitlines()) if a != b]
        c.violation('result depends on the optimisation level: %s' % (d[:1],))
    for (code, flags), l in zip(want, lines):
        o = json.loads(l)
        if ','.join(map(str, o['flags'])) != flags or not o['same']:
            c.violation('code %s: flags %s, specification %s' % (code.hex(), o['flags'], flags), o)
    c.traces(len(want))
    f = spath('obs.ndjson')
    open(f, 'w').write('\n'.join(lines[len(want):]) + '\n')
    r = tlc('JumpDests', dict(Alphabet='{0}', MaxLen=0), init='TInit', nxt='TNext', env={'TRACES': f})
    if not r.ok: raise CheckError(r.out[-3000:])
    if r.distinct != 2 * len(rnd): raise CheckError('traces were skipped')
    c.model(r)
    c.traces(len(rnd))
    for l in r.msgs:
        m = re.match(r'<<"BAD", (\d+), (.*)>>', l)
        if m:
            o = json.loads(lines[len(want) + int(m.group(1)) - 1])
            c.violation('code %s: flags %s, specification %s' % (bytes(o['code']).hex()[:400], str(o['flags'])[:300], m.group(2)[:300]), o)
    c.sample({'code': want[min(777, len(want) - 1)][0].hex(), 'flags': want[min(777, len(want) - 1)][1]})


main(check, 'J01')
