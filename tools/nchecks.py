"""The checks of the interpreters behind the EVMC interface, as Tosca runs them (N01, N02)."""
import json, random, re
import evmcases as G
from evmcheck import *
from echecks import T, sharing_cases
from lchecks import pick, unique
from schecks import suited, direct, selfdestructs
from xchecks import build_rust, merge

D = os.path.join(VERIF, 'drivers/go')
def rnd(k): return random.Random(SEED * 1000 + 700 + k)

def build_bridge():
    """The Go driver with the real libraries of the C++ and the Rust interpreter behind it."""
    libs = spath('libs')
    os.makedirs(libs, exist_ok=True)
    def cpp(): cxx_build([os.path.join(REPO, 'cpp/vm/evmzero', f) for f in EVMZERO], libs + '/libevmzero.so', flags=['-O1', '-fPIC', '-shared'], libs=absl_libs())
    def rust(): os.replace(build_rust('default', 'cdylib'), libs + '/libevmrs.so')
    parallel([cpp, rust])
    ov = {'go/zz_verif_evmrun/%s.go' % f: D + '/evmrun/%s.go' % f for f in ('main', 'ct', 'bridge')}
    exe = go_build('./go/zz_verif_evmrun', spath('evmrun-bridge'), ov, go_mod(), env={'CGO_CFLAGS': '-I%s/shims/cpp -O1' % VERIF, 'CGO_LDFLAGS': '-L' + libs})
    return exe, {'LD_LIBRARY_PATH': libs}

class Parallel:
    """What is reported of executions that share a profiling interpreter."""
    def __init__(self, c): self.c = c
    def violation(self, text, data, key): self.c.violation(text, data, key='profiling-threads')

def known(x):
    if x.op == 'EXTCODEHASH' and x.tag in ('evmzero', 'evmrs') and x.fields == {'stack'} and re.search(r'top \|-> <<<<>>>>', x.raw): return 'codehash-zero'
    if x.op == 'END' and re.match(r'evmzero-profiling\S*/thread', x.tag): return 'profiling-threads'

def n01(c):
    """The C++ and the Rust interpreter through Tosca's interfaces."""
    r = rnd(1)
    n = T(1, 10)
    exe, env = build_bridge()
    cs = direct(r, T(250, 4000)) + pick(r, selfdestructs(r), T(60, 1000)) + pick(r, G.arith(r, 12 * n), 20 * n) + pick(r, G.sizes(r, THOROUGH), 30 * n) + pick(r, G.stack_bounds(r, THOROUGH), 40 * n) + G.memory(r, 40 * n) \
        + pick(r, G.jumps(r, 20 * n), 30 * n) + pick(r, G.opcodes_by_revision(r), 100 * n) + pick(r, G.storage_triples(r), 60 * n) + pick(r, G.storage_random(r, 30 * n), 30 * n) + G.access(r, 30 * n) \
        + pick(r, G.static_mode(r, 20 * n), 50 * n) + G.calls(r, 60 * n) + pick(r, G.call_value_matrix(r), 40 * n) + pick(r, G.creates(r, 40 * n), 60 * n) + pick(r, G.environment(r, 40 * n), 50 * n) + G.hashes(r, 3 * n) \
        + G.programs(r, 50 * n) + G.byte_soup(r, 30 * n) + G.landings(r, 40 * n)
    steps = suited(unique(cs))
    whole = unique([x for x in G.programs(r, 60 * n) + G.calls(r, 60 * n) + pick(r, G.creates(r, 40 * n), 60 * n) + pick(r, G.environment(r, 40 * n), 60 * n) + pick(r, G.storage_triples(r), 50 * n) + G.access(r, 30 * n)
        + pick(r, G.storage_random(r, 20 * n), 20 * n) + pick(r, G.static_mode(r, 20 * n), 60 * n) + pick(r, G.opcodes_by_revision(r), 60 * n) + sharing_cases(r, 5 * n) + pick(r, selfdestructs(r), 30 * n) + G.landings(r, 60 * n) if not x.stack])
    jobs = [(steps, 'targets', 0, '^evm'), (whole, 'exec', 0, '^evm'), (whole, 'nested', 0, '^evm'), (whole, 'threads', 4, '^evm(zero|zero-logging|zero-no.*|rs.*)$')]
    recs = parallel([lambda j=j: record(c, exe, j[0], j[1], j[2], env=dict(env, VMS=j[3]), timeout=400) for j in jobs], 4)
    shared = Parallel(c)
    recs.append(record(shared, exe, whole, 'threads', 4, tag='-profiling', env=dict(env, VMS='^evmzero-profiling'), timeout=400))
    opened = 0
    for reports, o in parallel([lambda x=x: compare(c, x) for x in recs if x], 4):
        opened += o
        for x in reports: c.violation(x.text(), {'case': x.case.text(), 'report': x.raw[:8000]}, key=known(x))
    c.note('cases', len(steps) + len(whole)); c.note('open', opened)

def n02(c):
    """What passes the bridge."""
    c.model(tlc_must('EvmcBridgeMC', dict(Depth=T(3, 4)), invariants=['TypeOK', 'Faithful', 'Total'], properties=['Isolated']))
    exe = go_build('./go/zz_verif_evmcbridge', spath('evmcbridge'), {'go/zz_verif_evmcbridge/main.go': D + '/evmcbridge/main.go'}, go_mod(), env={'CGO_CFLAGS': '-I%s/shims/cpp -O1' % VERIF})
    count, parts = T((900, 4), (12000, 8))
    def part(i):
        f = spath('bridge%d.ndjson' % i)
        rc, o, e = run([exe, f, str(count), str(SEED * 100 + i)], timeout=300)
        if rc: return f, None, 'the driver ended with %s: %s' % (rc, e[-3000:])
        return f, tlc_must('EvmcBridgeTrace', view='View', env={'RUNS': f}, heap='5g', workers=2, timeout=800), ''
    events = {}
    for f, r, e in parallel([lambda i=i: part(i) for i in range(parts)], 4):
        if r is None:
            c.violation(e)
            continue
        c.model(r); c.traces(count)
        runs = [json.loads(l) for l in open(f)]
        for h in runs:
            for x in h['ev']:
                k = x.get('op', x['e'])
                events[k] = events.get(k, 0) + 1
        c.sample(max(runs[:50], key=lambda h: len(h['ev'])))
        for m in r.msgs:
            x = re.match(r'<<"BAD", "([^"]*)", (\d+), "(\w+)", \{([^}]*)\}, (.*)', m, re.S)
            if not x: raise CheckError('unexpected output: ' + m[:500])
            c.violation('%s, event %s (%s): unexpected %s: %s' % (x.group(1), x.group(2), x.group(3), x.group(4), re.sub(r'\s+', ' ', x.group(5))[:900]),
                        {'run': next(h for h in runs if h['id'] == x.group(1)), 'report': m[:8000]})
    c.note('events', events)
