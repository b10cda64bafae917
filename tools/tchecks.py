"""The checks of the value types (T01 to T04)."""
import re
from vlib import *

T = lambda quick, thorough: thorough if THOROUGH else quick
D = os.path.join(VERIF, 'drivers/go/types')

def types(c, mode, n, known=lambda m: None):
    ov = {'go/zz_verif_types/main.go': D + '/main.go'}
    if mode == 'values': ov['go/zz_verif_types/values.go'] = D + '/values.go'
    exe = go_build('./go/zz_verif_types', spath('types'), ov, go_mod())
    f = spath('records.ndjson')
    rc, o, e = run([exe, mode, str(SEED), str(n)], timeout=300, stdout_file=f)
    if rc != 0:
        c.violation('the value types failed: ' + e[-1500:], {'stderr': e[-6000:]})
        return
    lines = open(f).read().splitlines()
    r = tlc('TypesTrace', env={'RECORDS': f}, heap='8g')
    if not r.ok: raise CheckError(r.out[-3000:])
    c.model(r)
    c.traces(len(lines))
    c.sample(lines[len(lines) // 2][:400])
    for m in r.msgs:
        x = re.match(r'<<"BAD", (\d+), ', m)
        if x: c.violation('a recorded call departs from the specification: ' + lines[int(x.group(1)) - 1][:900], {'record': lines[int(x.group(1)) - 1]})

def t01(c): types(c, 'amounts', T(2500, 60000))
def t02(c): types(c, 'storage', T(4000, 80000))
def t03(c): types(c, 'text', T(1500, 30000))
def t04(c): types(c, 'values', T(220, 4000))


def r01(c):
    """Registries."""
    import json
    c.model(tlc_must('RegistryMC', dict(Names='<- NamesMC', Factories='1..3'), spec='Spec', invariants=['Functional', 'Normal', 'CaseBlind'], properties=['Stable']))
    ov = {'go/zz_verif_registry/main.go': os.path.join(VERIF, 'drivers/go/registry/main.go')}
    exe = go_build('./go/zz_verif_registry', spath('registry'), ov, go_mod())
    race = go_build('./go/zz_verif_registry', spath('registry-race'), ov, go_mod(), ['-race'])
    lines = []
    for e2, args in ((exe, (SEED, T(1500, 10000), T(4000, 30000))), (race, (SEED + 1, 100, T(1500, 10000)))):
        rc, o, e = run([e2, *map(str, args)], timeout=300, env={'GORACE': 'halt_on_error=1 exitcode=66'})
        if rc != 0:
            what = 'data race' if 'DATA RACE' in e else 'no progress' if rc is None else 'failure'
            c.violation('%s in the registries: %s' % (what, e[:2000]), {'stderr': e[-8000:]})
            continue
        lines += o.splitlines()
    if not lines: return
    f = spath('histories.ndjson')
    open(f, 'w').write('\n'.join(lines) + '\n')
    r = tlc('RegistryLin', env={'HISTORIES': f}, heap='8g')
    if not r.ok: raise CheckError(r.out[-3000:])
    c.model(r)
    c.traces(len(lines))
    good = {int(x.group(1)) for x in (re.match(r'<<"LIN", (\d+)>>', l) for l in r.msgs) if x}
    for i, l in enumerate(lines, 1):
        if i not in good:
            h = json.loads(l)
            c.violation('history %s has no linearization: %s' % (h['id'], ' '.join('%(op)s/%(api)s(%(name)s,%(id)s)=%(r)s' % o for o in h['ops'])), h)
    c.sample(json.loads(lines[0]))
