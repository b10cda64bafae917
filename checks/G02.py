"""G02: the coverage bridge reports and dumps exactly when compiled for coverage."""
import itertools, json, random, re, shutil, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from vlib import *


def tree(kind):
    """A copy of the Go bridge and its library, compiled with or without coverage."""
    t = spath(kind, 'x')[:-2]
    lib = os.path.join(t, 'cpp/build/common/coverage')
    os.makedirs(lib)
    for f in ('go.mod', 'go.sum'): shutil.copy(os.path.join(REPO, f), t)
    os.makedirs(t + '/go/lib')
    shutil.copytree(REPO + '/go/lib/cpp', t + '/go/lib/cpp')
    shutil.copytree(REPO + '/cpp/common/coverage', t + '/cpp/common/coverage')
    shutil.copy(VERIF + '/drivers/go/coverage/export.go', t + '/go/lib/cpp/zz_verif_export.go')
    os.makedirs(t + '/go/zz_verif')
    shutil.copy(VERIF + '/drivers/go/coverage/main.go', t + '/go/zz_verif/main.go')
    open(t + '/work.c', 'w').write('int VerifWork(int n) {\n  int s = 0;\n  while (n-- > 0) s += n;\n  return s;\n}\n')
    fl = ['-O0', '-g', '-fPIC']
    if kind == 'coverage': fl += ['--coverage', '-DTOSCA_COVERAGE=1']
    for src, so in (([t + '/cpp/common/coverage/' + f for f in sorted(os.listdir(t + '/cpp/common/coverage')) if f.endswith('.c')], 'libtosca_collect_coverage.so'), ([t + '/work.c'], 'libverif_work.so')):
        os.makedirs(t + '/obj', exist_ok=True)
        objs = []
        for s in src:
            o = t + '/obj/' + os.path.basename(s)[:-2] + '.o'
            rc, out, e = run(['gcc', *fl, '-c', s, '-o', o])
            if rc: raise CheckError(e)
            objs.append(o)
        rc, out, e = run(['gcc', *fl, '-shared', *objs, '-o', lib + '/' + so])
        if rc: raise CheckError(e)
    go_build('./go/zz_verif', t + '/driver', {}, repo=t)
    return t


def recorded(t, prefix):
    """Executions of VerifWork recorded in the data files; -1 when there are none."""
    files = [os.path.join(d, f) for d, _, fs in os.walk(prefix) for f in fs if f.endswith('.gcda')]
    if not files: return -1
    if not any('collect_coverage' in f for f in files): return -2  # this library's data are missing
    w = [f for f in files if f.endswith('work.gcda')]
    if not w: return -3
    rc, o, e = run(['gcov', '-t', '--json-format', '-o', os.path.dirname(w[0]), '-o', w[0], t + '/work.c'], cwd=t)
    try:
        j = json.loads(o)
        return [f['execution_count'] for x in j['files'] for f in x['functions'] if f['name'] == 'VerifWork'][0]
    except (ValueError, IndexError, KeyError):
        return -4


def execute(t, kind, ops, i):
    prefix = spath('gcda-%s-%d' % (kind, i), 'x')[:-2]
    os.makedirs(prefix, exist_ok=True)
    p = subprocess.Popen([t + '/driver', *ops], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, GCOV_PREFIX=prefix), cwd=prefix)
    steps = []
    timer = __import__('threading').Timer(30, p.kill)
    timer.start()
    for op in ops:
        l = p.stdout.readline().split()
        if not l or l[0] != op: break
        # the notes file sits next to the object; gcov needs it beside the data
        for d, _, fs in os.walk(prefix):
            for f in fs:
                if f == 'work.gcda' and not os.path.exists(d + '/work.gcno'): shutil.copy(t + '/obj/work.gcno', d)
        steps.append({'op': op, 'r': l[-1] == 'true', 'files': recorded(t, prefix)})
        try:
            p.stdin.write('\n'); p.stdin.flush()
        except BrokenPipeError: break
    out, err = '', ''
    try: out, err = p.communicate(timeout=30)
    except Exception: p.kill()
    timer.cancel()
    code = p.returncode if p.returncode is not None else 99
    if len(steps) < len(ops) or 'end' not in out: code = code or 98
    shutil.rmtree(prefix, ignore_errors=True)
    return {'enabled': kind == 'coverage', 'ops': ' '.join(ops), 'steps': steps, 'code': code}


def check(c):
    c.model(tlc_must('CoverageBridge', dict(MaxLen=6, MaxWork=6), invariants=['NeverMoreThanDone', 'OnlyWhenEnabled'], env={'TRACES': '/dev/null'}, workers=2))
    trees = dict(zip(('coverage', 'plain'), parallel([lambda: tree('coverage'), lambda: tree('plain')])))
    L = 4 if THOROUGH else 3
    seqs = [s for n in range(1, L + 1) for s in itertools.product('qwdc', repeat=n)]
    rng = random.Random(SEED)
    if not THOROUGH: seqs = rng.sample(seqs, 60) + [tuple('qwdwqdd'), tuple('wwdq'), tuple('wcq'), tuple('d'), tuple('q')]
    seqs += [tuple(rng.choice('qwwdc') for _ in range(rng.randrange(5, 20))) for _ in range(20)]
    jobs = [lambda k=k, s=s, i=i: execute(trees[k], k, s, i) for k in trees for i, s in enumerate(seqs)]
    obs = parallel(jobs)
    f = spath('obs.ndjson')
    open(f, 'w').write(''.join(json.dumps(o) + '\n' for o in obs))
    r = tlc('CoverageBridge', dict(MaxLen=0, MaxWork=0), init='TInit', nxt='TNext', invariants=['NeverMoreThanDone', 'OnlyWhenEnabled', 'TEnd'], env={'TRACES': f})
    if not r.ok and not r.invariant: raise CheckError(r.out[-3000:])
    c.model(r)
    c.traces(len(obs))
    c.sample(obs[3])
    for l in r.msgs:
        m = re.match(r'<<"BAD", (\d+), (\d+), (.*)>>', l)
        if m: c.violation('%s wrong at request %s of %s' % (m.group(3), m.group(2), json.dumps(obs[int(m.group(1)) - 1])[:800]), obs[int(m.group(1)) - 1])
    if r.invariant: c.violation('invariant %s violated: %s' % (r.invariant, r.out[-1200:]))


main(check, 'G02')
