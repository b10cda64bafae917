"""Common machinery of all checks: scratch directories, builds, TLC runs,
violation reports and evidence files."""
import atexit, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TOSCA_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

_scratch = None


def scratch():
    """A private directory that disappears with the process."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='verif-')
        if not os.environ.get('VERIF_KEEP'):
            atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        else:
            print('scratch', _scratch, file=sys.stderr)
    return _scratch


def spath(*p):
    r = os.path.join(scratch(), *p)
    os.makedirs(os.path.dirname(r), exist_ok=True)
    return r


class CheckError(Exception):
    """The check itself could not be carried out."""


def run(cmd, timeout=600, env=None, cwd=None, stdin=None, mem_gb=None, stdout_file=None):
    """Runs a command; returns (rc, stdout, stderr); rc None on time-out."""
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    pre = None
    if mem_gb:
        import resource
        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    p = subprocess.Popen(cmd, stdout=open(stdout_file, 'w') if stdout_file else subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         env=e, cwd=cwd or scratch(), start_new_session=True, text=True, errors='replace', preexec_fn=pre)
    try:
        o, s = p.communicate(stdin, timeout=timeout)
        return p.returncode, o or '', s
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, s = p.communicate()
        return None, o or '', s


def parallel(jobs, n=8):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(lambda j: j(), jobs))


# --- building ---------------------------------------------------------------
CXXFLAGS = ['-std=c++20', '-w', '-DTOSCA_ASSERT_ENABLED', '-I%s/shims/cpp' % VERIF, '-I%s/cpp' % REPO]
ABSL = None


def absl_libs():
    global ABSL
    if ABSL is None:
        rc, o, _ = run(['pkg-config', '--libs', 'absl_flat_hash_map', 'absl_hash', 'absl_raw_hash_set'])
        ABSL = o.split()
    return ABSL


def cxx_compile(sources, flags=(), cxx='g++'):
    """Compiles sources in parallel; returns the object files."""
    objs = []
    def job(src):
        obj = spath('obj', hashlib.sha1((src + repr(flags) + cxx).encode()).hexdigest()[:12] + '.o')
        objs.append(obj)
        def f():
            rc, o, e = run([cxx, *CXXFLAGS, *flags, '-c', src, '-o', obj])
            if rc != 0:
                raise CheckError('compiling %s failed:\n%s' % (src, e[-4000:]))
            return obj
        return f
    return parallel([job(s) for s in sources])


def cxx_link(objs, out, flags=(), cxx='g++', libs=()):
    rc, o, e = run([cxx, *flags, *objs, '-o', out, *libs, '-lpthread'])
    if rc != 0:
        raise CheckError('linking %s failed:\n%s' % (out, e[-4000:]))
    return out


def cxx_build(sources, out, flags=(), libs=(), cxx='g++'):
    return cxx_link(cxx_compile(sources, flags, cxx), out, flags, cxx, libs)


# --- TLC ----------------------------------------------------------------------
def unq(l):
    """A line printed by TLC: a string printed as a quoted literal, or a value."""
    return l[1:-1].replace('\\"', '"').replace('\\\\', '\\') if l.startswith('"') else l


class Tlc:
    """Result of a TLC run."""
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = rc == 0 and 'Model checking completed. No error has been found' in out
        self.invariant = (re.findall(r'Invariant (\S+) is violated', out) or re.findall(r'Action property (\S+) is violated', out)
                          or re.findall(r'property (\S+) (?:is|was) violated', out) or [None])[0]
        self.msgs = [unq(l) for l in out.splitlines() if l.startswith('"') or l.startswith('<<')]


def tlc(module, consts=None, init='Init', nxt='Next', spec=None, invariants=(), properties=(), view=None, constraint=None,
        action_constraint=None, deadlock=False, env=None, workers=8, timeout=800, heap='4g', symmetry=None, extra=(), raw_cfg='', simulate=None):
    """Runs TLC on spec/<module>.tla with a generated configuration."""
    d = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    cfg = []
    if consts:
        cfg.append('CONSTANTS')
        for k, v in consts.items():
            m = re.match(r'(\d+)\.\.(\d+)$', str(v))
            if m: v = '{%s}' % ', '.join(map(str, range(int(m.group(1)), int(m.group(2)) + 1)))
            cfg.append('  %s = %s' % (k, v) if not str(v).startswith('<-') else '  %s %s' % (k, v))
    cfg.append('SPECIFICATION %s' % spec if spec else 'INIT %s\nNEXT %s' % (init, nxt))
    if invariants: cfg.append('INVARIANTS ' + ' '.join(invariants))
    if properties: cfg.append('PROPERTIES ' + ' '.join(properties))
    if view: cfg.append('VIEW ' + view)
    if constraint: cfg.append('CONSTRAINT ' + constraint)
    if action_constraint: cfg.append('ACTION_CONSTRAINT ' + action_constraint)
    if symmetry: cfg.append('SYMMETRY ' + symmetry)
    cfg.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
    cfg.append(raw_cfg)
    c = os.path.join(d, 'M.cfg')
    open(c, 'w').write('\n'.join(cfg) + '\n')
    for f in glob.glob(os.path.join(VERIF, 'spec', '*.tla')):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JAR, 'tlc2.TLC', '-config', c, '-workers', str(workers),
           '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-seed', str(SEED), '-fp', '1']
    if simulate: cmd += ['-simulate', simulate]
    cmd += list(extra) + [os.path.join(d, module + '.tla')]
    rc, o, e = run(cmd, timeout=timeout, env=env, cwd=d)
    shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
    if rc is None:
        raise CheckError('TLC on %s timed out\n%s' % (module, o[-2000:]))
    return Tlc(rc, o + e)


def tlc_must(*a, **k):
    """A TLC run whose own properties must hold (design-level model)."""
    r = tlc(*a, **k)
    if not r.ok:
        raise CheckError('TLC failed on %s:\n%s' % (a[0], r.out[-6000:]))
    return r


# --- reporting ------------------------------------------------------------------
def known_findings(prop):
    res = {}
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.violations = []   # (key, text, data)
        self.known = known_findings(prop)
        self.seen_known = set()
        self.notes = {}

    def model(self, r):
        """Accounts for a TLC run."""
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        return r

    def traces(self, n):
        self.cov['traces_validated_against_impl'] += n

    def sample(self, s):
        if len(self.cov['samples']) < 5:
            self.cov['samples'].append(s)

    def note(self, k, v):
        self.notes[k] = v

    def violation(self, text, data=None, key=None):
        if key in self.known:
            self.seen_known.add(key)
            return
        self.violations.append((key, text, data))

    def finish(self):
        d = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        self.cov.update(self.notes)
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': self.cov, 'wall_s': round(time.time() - self.t0, 2)}
        if self.violations:
            ev['violations'] = len(self.violations)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, t in sorted(self.known.items()):
            if k in self.seen_known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, t))
        if self.violations:
            rd = os.path.join(d, 'replay')
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, '%s.json' % self.prop)
            with open(p, 'w') as f:
                json.dump([{'what': t, 'data': x} for _, t, x in self.violations[:50]], f, indent=1, default=str)
            for _, t, _ in self.violations[:10]:
                print('  ' + t.replace('\n', '\n  ')[:2000])
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
            sys.stdout.flush()
            sys.exit(1)
        print('OK property=%s states=%s traces=%s wall=%.1fs' % (self.prop, self.cov.get('states'), self.cov.get('traces_validated_against_impl'),
                                                               time.time() - self.t0))
        sys.exit(0)


def main(f, prop, **k):
    """Runs check function f(check); check errors exit with 2."""
    c = Check(prop, **k)
    try:
        f(c)
    except CheckError as e:
        print('CHECK-ERROR property=%s %s' % (prop, e))
        sys.exit(2)
    c.finish()


# --- Go -------------------------------------------------------------------------
GOENV = {'GOPROXY': 'off', 'GOTOOLCHAIN': 'local', 'GOFLAGS': '-mod=readonly', 'CGO_ENABLED': '1', 'GOCACHE': os.environ.get('GOCACHE', '/root/.cache/go-build'),
         'HOME': '/root', 'CC': 'gcc', 'CXX': 'g++', 'GOTELEMETRY': 'off'}


GO_SHIMS = {'github.com/holiman/uint256': 'uint256', 'go.uber.org/mock': 'gomock', 'github.com/ethereum/evmc/v11': 'evmc', 'github.com/hashicorp/golang-lru/v2': 'lru', 'pgregory.net/rand': 'rand',
            'github.com/ethereum/go-ethereum': 'geth', 'github.com/urfave/cli/v2': 'cli', 'github.com/dsnet/golib/unitconv': 'unitconv'}
GO_CACHED = {'golang.org/x/exp': 'v0.0.0-20231110203233-9a3e6036ecaa', 'golang.org/x/crypto': 'v0.0.0-20210921155107-089bfa567519', 'golang.org/x/sys': 'v0.49.0'}


def go_mod():
    """A module file for the repository's Go code whose dependencies that are
    not available offline are replaced by the stand-ins in shims/go."""
    f = spath('go.shim.mod')
    if os.path.exists(f): return f
    l = ['module github.com/Fantom-foundation/Tosca', 'go 1.22.0']
    for m, d in GO_SHIMS.items():
        d = os.path.join(VERIF, 'shims/go', d)
        if not os.path.isdir(d): continue
        l += ['require %s %s' % (m, 'v%s.0.0' % (re.findall(r'/v(\d+)$', m) or ['1'])[0]), 'replace %s => %s' % (m, d)]
    for m, v in GO_CACHED.items():
        l += ['require %s %s' % (m, v), 'replace %s => /root/go/pkg/mod/%s@%s' % (m, m, v)]
    open(f, 'w').write('\n'.join(l) + '\n')
    open(f[:-4] + '.sum', 'w').close()
    return f


def go_build(pkg, out, overlay, modfile=None, flags=(), test=False, env=None, repo=None):
    """Builds ./pkg of the repository's module with files added by an overlay
    (paths relative to the repository -> real files)."""
    repo = repo or REPO
    ov = spath('overlay-%s.json' % os.path.basename(out))
    with open(ov, 'w') as f:
        json.dump({'Replace': {os.path.join(repo, k): v for k, v in overlay.items()}}, f)
    cmd = ['go', 'test', '-c'] if test else ['go', 'build']
    cmd += ['-overlay', ov, '-o', out, *flags]
    if modfile: cmd += ['-modfile', modfile]
    genv = dict(GOENV, **(env or {}))
    if modfile: genv['GOFLAGS'] = '-mod=mod'
    rc, o, e = run(cmd + [pkg], env=genv, cwd=repo, timeout=600)
    if rc != 0:
        raise CheckError('building %s failed:\n%s' % (pkg, (o + e)[-4000:]))
    return out
