"""The check of the Rust interpreter against the specification of the EVM (X01)."""
import json, random, re
import evmcases as G
from evmgen import Case
from evmcheck import *
from echecks import sharing_cases, consumed
from schecks import selfdestructs

T = lambda quick, thorough: thorough if THOROUGH else quick
def rnd(k): return random.Random(SEED * 1000 + 500 + k)
CRATE = '''[workspace]
[package]
name = "evmrs"
version = "0.1.0"
edition = "2021"
[lib]
path = "%(repo)s/rust/src/lib.rs"
crate-type = ["%(kind)s"]
[profile.release]
opt-level = %(opt)d
%(features)s
[dependencies]
bnum = { path = "%(shims)s/bnum" }
ethnum = { path = "%(shims)s/ethnum" }
evmc-vm-tosca = { package = "evmc-vm", path = "%(shims)s/evmc-vm" }
evmc-vm-tosca-refactor = { package = "evmc-vm-refactor", path = "%(shims)s/evmc-vm-refactor", optional = true }
sha3 = { path = "%(shims)s/sha3" }
zerocopy = { version = "0.8.8", features = ["derive"] }
llvm-profile-wrappers = { path = "%(shims)s/llvm-profile-wrappers" }
mimalloc = { path = "%(shims)s/mimalloc", optional = true }
lru = { path = "%(shims)s/lru", optional = true }
nohash-hasher = { version = "0.2.0", optional = true }
mockall = { package = "mimalloc", path = "%(shims)s/mimalloc", optional = true }
arbitrary = { package = "mimalloc", path = "%(shims)s/mimalloc", optional = true }
'''
SETS = {'default': '', 'performance': 'performance', 'tail-call': 'tail-call', 'jumptable': 'jumptable-dispatch', 'inline': 'fn-ptr-conversion-inline-dispatch',
        'expanded': 'fn-ptr-conversion-expanded-dispatch,unsafe-stack', 'caches': 'code-analysis-cache,hash-cache,alloc-reuse',
        'thread-local': 'performance,thread-local-cache', 'all': 'performance,thread-local-cache,tail-call'}
MORE = {'inline-tail': 'fn-ptr-conversion-inline-dispatch,tail-call,unsafe-stack,code-analysis-cache', 'jumptable-tail': 'jumptable-dispatch,tail-call,alloc-reuse,hash-cache', 'custom': 'custom-evmc,hash-cache,thread-local-cache'}

def features():
    """The [features] section of the crate."""
    m = re.search(r'^\[features\]\n.*?(?=^\[)', open(os.path.join(REPO, 'rust/Cargo.toml')).read(), re.M | re.S)
    if not m: raise CheckError('no features in rust/Cargo.toml')
    return m.group(0)

def build_rust(name, kind='staticlib'):
    """The driver linked with the interpreter compiled with a set of features."""
    d = spath('rs-' + name)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'Cargo.toml'), 'w').write(CRATE % dict(repo=REPO, shims=os.path.join(VERIF, 'shims/rust'), features=features(), kind=kind, opt=3 if 'tail' in SETS[name] else 1))
    rc, o, e = run(['cargo', 'build', '--offline', '--release', '--quiet', '--target-dir', os.path.join(d, 't')] + (['--features', SETS[name]] if SETS[name] else []), cwd=d, timeout=600, env={'RUSTFLAGS': '-Awarnings'})
    if rc: raise CheckError('the Rust interpreter (%s) cannot be built:\n%s' % (name, e[-3000:]))
    return os.path.join(d, 't/release/libevmrs.' + ('a' if kind == 'staticlib' else 'so'))

def binaries(names):
    obj = cxx_compile([os.path.join(VERIF, 'drivers/evm.cc')], flags=['-O1', '-DEVM_RUST'])
    libs = parallel([lambda n=n: build_rust(n) for n in names])
    out = {}
    for n, l in zip(names, libs):
        out[n] = spath('evmrs-' + n)
        cxx_link(obj, out[n], libs=[l, '-lpthread', '-ldl'])
    return out

def merge(recs, name):
    """Recordings of all distinct observations of the same cases."""
    seen, pre = {}, recs[0][1].prefix
    for tag, r in recs:
        for l in open(r.runs):
            j = json.loads(l)
            j['tag'] = tag + '/' + j['tag']
            for f in j['fin']: f['tag'] = tag + '/' + f['tag']
            k = json.dumps([j['c'], j['e'], sorted((dict(f, tag='') for f in j['fin']), key=str)])
            seen.setdefault(k, j)
    lines, out = [json.dumps(j) for j in seen.values()], []
    for i in range(0, len(lines), 1000):
        runs = spath('%s.merged%d' % (name, i))
        open(runs, 'w').write('\n'.join(lines[i:i + 1000]) + '\n')
        out.append(Recording(recs[0][1].cases, pre, runs))
    return out

def few(r, cs, n): return cs if len(cs) <= n else r.sample(cs, n)

def tightened(r, cs, used, per):
    """The cases with exactly the gas they need up to some instruction, and one less."""
    out = []
    for x in cs:
        u = used.get(x.id, [])
        pos = [k for k in range(len(u)) if u[k][1] in ('run', 'ret', 'rev', 'stop') and u[k][0] > 0]
        if not pos or x.stack: continue
        for k in {pos[-1]} | set(r.sample(pos, min(per, len(pos)))):
            d = r.choice([0, -1, -1])
            y = Case.__new__(Case); y.__dict__.update(x.__dict__)
            y.gas, y.id = u[k][0] + d, '%s-%d-%d%s' % (x.id, k, -d, 'j' if per > 4 else '')
            if y.gas >= 0 and y.gas != x.gas: out.append(y)
    return out

def x01(c):
    """The Rust interpreter."""
    if THOROUGH: SETS.update(MORE)
    names = list(SETS)
    exes = binaries(names)
    r = rnd(1)
    k = T(1, 12)
    groups = {
        'values': G.arith(r, 8 * k) + G.arith_pairs(r, 5 * k) + G.indices(r, THOROUGH) + G.limbs(r, 6 * k) + G.exponents(r) + G.environment(r, 70 * k) + G.hashes(r, 12 * k),
        'memory': few(r, G.stack_bounds(r, THOROUGH), 250 * k) + G.stack_full(r) + few(r, G.stack_ops(r, 20 * k), 60 * k) + G.memory(r, 80 * k) + few(r, G.memory_edges(r), 200 * k),
        'control': G.jumps(r, 60 * k) + G.jump_all(r, 6 * k) + few(r, G.opcodes_by_revision(r), 500 * k) + G.programs(r, 60 * k) + G.byte_soup(r, 80 * k) + G.landings(r, 100 * k),
        'state': few(r, G.storage_triples(r), 120 * k) + G.storage_random(r, 60 * k)[:60 * k] + G.access(r, 60 * k) + G.static_mode(r, 80 * k),
        'calls': G.calls(r, 110 * k) + few(r, G.call_value_matrix(r), 100 * k) + few(r, G.creates(r, 100 * k), 160 * k)
            + few(r, selfdestructs(r), 60 * k),
    }
    jobs = []
    def go(g, cs, mode, arg=0):
        recs = [(n, record(c, exes[n], cs, mode, arg, tag='-%s-%s' % (g, n))) for n in names]
        recs = [(n, x) for n, x in recs if x]
        return (len(cs), merge(recs, g + mode)) if recs else None
    for g, cs in groups.items(): jobs.append(lambda g=g, cs=cs: go(g, cs, 'steps'))
    mixed = G.programs(r, 40 * k, 'mixed') + G.jumps(r, 10 * k) + G.calls(r, 20 * k) + G.memory(r, 10 * k) + few(r, G.creates(r, 10 * k), 10 * k) + few(r, G.storage_random(r, 10 * k), 10 * k)
    jobs.append(lambda: go('mixed', mixed, 'batches', 4))
    same = sharing_cases(r, 15 * k) + G.programs(r, 50 * k, 'same') + G.landings(r, 250 * k)
    jobs.append(lambda: go('same', same, 'exec'))
    jobs.append(lambda: go('same', same, 'nested'))
    jobs.append(lambda: go('same', same, 'threads', 8))
    recs = [x for x in parallel(jobs, 4) if x]
    spare = few(r, G.opcodes_by_revision(r), 120 * k) + G.memory(r, 30 * k) + G.environment(r, 15 * k) + G.jumps(r, 30 * k) + G.storage_random(r, 20 * k)[:20 * k] + G.access(r, 20 * k) \
        + G.calls(r, 30 * k) + few(r, G.creates(r, 30 * k), 40 * k) + G.hashes(r, 4) + G.programs(r, 40 * k)
    for i, x in enumerate(spare): x.id = 't%d-%s' % (i, x.id)
    first = record(c, exes[names[0]], spare, 'steps', tag='-spare')
    if first:
        used = consumed(first)
        near = tightened(r, spare, used, T(1, 4)) + tightened(r, [x for x in spare if '-jump' in x.id], used, 8)
        recs += [x for x in parallel([lambda: go('tight', near, 'steps'), lambda: go('tightx', near, 'exec')], 4) if x]
    opened = 0
    for reports, n in parallel([lambda m=m: compare(c, m, heap='4g') for x in recs for m in x[1]], 5):
        opened += n
        for x in reports: c.violation(x.text(), {'case': x.case.text(), 'report': x.raw[:8000]})
    c.note('cases', sum(x[0] for x in recs)); c.note('open', opened); c.note('feature_sets', len(names))
