"""The checks of the states of the conformance tool (S04, S05)."""
import json, random, re
from vlib import *

T = lambda quick, thorough: thorough if THOROUGH else quick
KEYS = ['0', '1', '2', '7', '100', 'f' * 16, '1' + '0' * 16, '8' + '0' * 62 + '1']
ADDRS = ['0', '1', '2', 'a' + '0' * 38 + '1', 'b' + '0' * 38 + '2', 'b' + '0' * 38 + '3']
WORDS = ['0', '0', '1', '2', '7', 'ff', 'f' * 16, '1' + '0' * 16, '1' + '0' * 32, '1' + '0' * 48, '8' + '0' * 63, 'f' * 64]
GAS = ['0', '1', '-1', '100', '500000000000', str(2 ** 63 - 1), str(-2 ** 63), str(2 ** 53 + 1)]
U64 = ['0', '1', '64', 'ff', '100', '101', '3e8', '10000000000', '7fffffffffffffff']
BLOCKS = [-1, 0, 1, 2, 3, 99, 100, 101, 254, 255, 255, 256, 256, 256, 257, 257, 258, 1000]
BLOCKWORDS = ['basefee', 'blobfee', 'chain', 'price', 'randao']

class Script:
    """A random script; it tracks just enough to stay within the domain of the operations."""
    def __init__(self, r, n, views):
        self.r, self.ops, self.views, self.live = r, [], views, {}
        self.add(1, 'new')
        self.live[1] = dict(stack=0, past=0, logs=[], future=0, blobs=0, sdj=0, mem=0)
        if r.random() < .8: self.fill(1)
        while len(self.ops) < n: self.step()
        hs = sorted(self.live)
        for h in hs:
            for g in hs: self.add(h, 'compare', g)

    def add(self, h, op, *a): self.ops.append({'h': h, 'op': op, 'a': list(a)})
    def data(self, n=40): return [self.r.randrange(256) for _ in range(self.r.choice([0, 1, 1, 2, 3, 20, n]))]
    def word(self): return self.r.choice(WORDS)
    def addr(self): return self.r.choice(ADDRS)
    def key(self): return self.r.choice(KEYS)
    def code(self): return [self.r.choice([0, 1, 0x5b, 0x60, 0x61, 0x7f, 0x5f, 0x80, 0xfe, self.r.randrange(256)]) for _ in range(self.r.choice([0, 1, 2, 5, 34, 60]))]

    def fill(self, h):
        for _ in range(self.r.choice([5, 15, 30])): self.change(h)

    def fresh(self):
        self.live[max(self.live, default=0) + 1] = 0

    def step(self):
        r = self.r
        hs = sorted(self.live)
        h = r.choice(hs)
        x = r.random()
        if x < .12:
            g = r.choice([y for y in range(1, 5) if y != h])
            self.add(h, r.choice(['clone', 'clone', 'reimport']), g)
            self.live[g] = json.loads(json.dumps(self.live[h]))
            self.add(h, 'compare', g)
        elif x < .14 and len(hs) > 1:
            self.add(h, 'release')
            del self.live[h]
        elif x < .15 and len(hs) < 4:
            g = max(hs) + 1
            if g <= 4:
                self.add(g, 'new')
                self.live[g] = dict(stack=0, past=0, logs=[], future=0, blobs=0, sdj=0, mem=0)
        elif x < .25: self.add(h, 'compare', r.choice(hs))
        else:
            self.change(h)
            # the same change in another state, now and then
            if len(hs) > 1 and r.random() < .15:
                o = self.ops[-1]
                if o['op'] in ('set', 'setcur', 'setorig', 'warm', 'settrans', 'balance', 'awarm', 'accounts', 'hashes', 'storage', 'code', 'vset', 'vaccess', 'vslot'):
                    g = r.choice([y for y in hs if y != h])
                    self.add(g, o['op'], *o['a'])
                    self.add(h, 'compare', g)
            elif len(hs) > 1 and r.random() < .3: self.add(h, 'compare', r.choice([y for y in hs if y != h]))

    def call(self): return [self.r.choice(['call', 'static_call', 'delegate_call', 'call_code', 'create', 'create2']), self.addr(), self.addr(), self.data(8), self.word(), self.r.choice([0, 1, 5, 100, 10 ** 9]), self.addr()]

    def change(self, h):
        r, t = self.r, self.live[h]
        ops = ['set'] * 12 + ['code', 'push', 'push', 'pop', 'peek', 'poke', 'shrink', 'stack', 'mset', 'mappend', 'mwrite', 'mgrow', 'mread', 'setcur', 'setcur', 'delcur', 'setorig', 'setorig', 'delorig', 'warm', 'warm',
               'cold', 'settrans', 'settrans', 'balance', 'balance', 'awarm', 'accounts', 'storage', 'log', 'logbyte', 'logtopic', 'expect', 'pastgas', 'futuregas', 'blobs', 'blob', 'hashes', 'sdentry', 'sdset', 'codeinfo',
               'zero', 'empty', 'call']
        views = ['vexists', 'vget', 'vset', 'vset', 'vset', 'vcommitted', 'vgettrans', 'vsettrans', 'vbalance', 'vsetbalance', 'vnonce', 'vsize', 'vcode', 'vblock', 'vblock', 'vlog', 'vcall', 'vcall', 'vdestruct', 'vdestructed',
                 'vaccess', 'vaccess', 'vslot', 'vslot', 'vinlist', 'vslotinlist', 'params', 'params']
        few = ['expect'] * 3 + ['hashes', 'number', 'destructed', 'accounts', 'storage', 'set'] # what the views depend on
        op = r.choice(views if r.random() < self.views else few if self.views > .5 and r.random() < .5 else ops)
        if op == 'number':
            self.add(h, 'set', 'number', r.choice(U64)); return
        if op == 'destructed':
            self.add(h, 'set', 'destructed', r.random() < .5); return
        if r.random() < .01 * self.views: op = r.choice(['vhash', 'codehash'])
        A = lambda *a: self.add(h, op, *a)
        if op == 'set':
            p = r.choice(['status', 'revision', 'readonly', 'pc', 'pc', 'gas', 'refund', 'self', 'caller', 'value', 'number', 'coinbase', 'limit', 'time', 'calldata', 'lastret', 'ret', 'destructed', 'origin'] + BLOCKWORDS)
            v = {'status': lambda: r.choice(['running'] * 4 + ['stopped', 'reverted', 'failed']), 'revision': lambda: r.randrange(6), 'readonly': lambda: r.random() < .5, 'destructed': lambda: r.random() < .5,
                 'pc': lambda: r.choice([0, 1, 2, 5, 34, 60, 61, 1000, 65535]), 'gas': lambda: r.choice(GAS), 'refund': lambda: r.choice(GAS), 'self': self.addr, 'caller': self.addr, 'coinbase': self.addr, 'origin': self.addr,
                 'number': lambda: r.choice(U64), 'limit': lambda: r.choice(U64), 'time': lambda: r.choice(U64), 'calldata': self.data, 'lastret': self.data, 'ret': self.data}.get(p, self.word)()
            A(p, v)
        elif op == 'code': A(self.code())
        elif op == 'push':
            if t['stack'] < 1000: A(self.word()); t['stack'] += 1
        elif op == 'pop':
            if t['stack']: A(); t['stack'] -= 1
        elif op in ('peek', 'poke'):
            if t['stack']: A(r.randrange(t['stack']), *([self.word()] if op == 'poke' else []))
        elif op == 'shrink':
            t['stack'] = r.randrange(t['stack'] + 1); A(t['stack'])
        elif op == 'stack':
            v = [self.word() for _ in range(r.choice([0, 1, 3, 20]))]
            A(v); t['stack'] = len(v)
        elif op in ('mset', 'mappend'): A(self.data(64))
        elif op == 'mwrite': A(r.choice([0, 1, 31, 32, 33, 64, 100]), self.data())
        elif op in ('mgrow', 'mread'): A(r.choice([0, 1, 31, 32, 33, 64, 100]), r.choice([0, 1, 31, 32, 33]))
        elif op in ('setcur', 'setorig', 'settrans'): A(self.key(), self.word())
        elif op in ('delcur', 'delorig', 'warm', 'cold'): A(self.key())
        elif op == 'balance': A(self.addr(), self.word())
        elif op in ('awarm', 'empty'): A(self.addr())
        elif op == 'accounts':
            A([[a, self.word(), self.data(5)] for a in r.sample(ADDRS, r.randrange(4))], r.sample(ADDRS, r.randrange(3)))
        elif op == 'storage': A([[k, self.word()] for k in r.sample(KEYS, r.randrange(4))], [[k, self.word()] for k in r.sample(KEYS, r.randrange(4))], ['7'] * r.randrange(2) + r.sample([k for k in KEYS if k != '7'], r.randrange(3)))
        elif op in ('log', 'vlog'):
            x = ([self.word() for _ in range(r.randrange(5))], self.data(8))
            A(*x); t['logs'].append([len(y) for y in x])
        elif op in ('logbyte', 'logtopic'):
            y = [(i, n[op == 'logbyte']) for i, n in enumerate(t['logs'], 1) if n[op == 'logbyte']]
            if y:
                i, n = r.choice(y)
                A(i, r.randrange(n) + 1, r.randrange(256) if op == 'logbyte' else self.word())
        elif op == 'expect': A([r.random() < .5, self.data(8), r.choice([0, 1, 5, 100]), r.choice([0, 7, -3]), self.addr()]); t['future'] += 1
        elif op == 'pastgas':
            if t['past']: A(r.randrange(t['past']) + 1, r.randrange(1000))
        elif op == 'futuregas':
            if t['future']: A(r.randrange(t['future']) + 1, r.randrange(1000))
        elif op in ('call', 'vcall'): A(self.call()); t['past'] += 1; t['future'] = max(0, t['future'] - 1)
        elif op == 'blobs':
            t['blobs'] = r.choice([0, 1, 1, 2, 3, 3, 6, 9, 17]); A([self.word() for _ in range(t['blobs'])])
        elif op == 'blob':
            if t['blobs']: A(r.randrange(t['blobs']) + 1, self.word())
        elif op == 'hashes': 
            if self.views > .5: A([r.choice(WORDS[2:]) for _ in range(r.choice([255, 256, 256]))])
            else: A([self.word() for _ in range(r.choice([0, 1, 3, 100, 256]))])
        elif op == 'sdentry': A(self.addr(), self.addr()); t['sdj'] += 1
        elif op == 'vdestruct': A(self.addr(), self.addr()); t['sdj'] += 1
        elif op == 'sdset':
            if t['sdj']: A(r.randrange(t['sdj']) + 1, self.addr(), self.addr())
        elif op == 'codeinfo': A(r.choice([-1, 0, 1, 2, 3, 4, 5, 33, 34, 35, 36, 59, 60, 61, 66, 100]))
        elif op in ('vexists', 'vbalance', 'vnonce', 'vsize', 'vcode', 'vhash', 'vdestructed', 'vaccess', 'vinlist'): A(self.addr())
        elif op in ('vget', 'vcommitted', 'vgettrans', 'vslot', 'vslotinlist'): A(self.addr(), self.key())
        elif op in ('vset', 'vsettrans'): A(self.addr(), self.key(), self.word())
        elif op == 'vsetbalance': A(self.addr(), self.word())
        elif op == 'vblock': A(r.choice(BLOCKS))
        else: A()

def histories(c, depth):
    """The histories of the model, as scripts."""
    m = tlc_must('CtStateMC', dict(Depth=depth, Emit='TRUE'), invariants=['CopiesEqual', 'Equivalence', 'Congruence', 'Emitted'], properties=['Frame'], heap='8g', timeout=800)
    c.model(m)
    return m

def validate(c, scripts, mine, name, files=None, module='CtStateTrace', consts=None):
    exe = go_build('./go/zz_verif_ctstate', spath('ctstate'), files or {'go/zz_verif_ctstate/main.go': os.path.join(VERIF, 'drivers/go/ctstate/main.go')}, go_mod())
    parts = [scripts[i::4] for i in range(4)]
    def part(i):
        src, out, tmp = spath('%s%d.in' % (name, i)), spath('%s%d.out' % (name, i)), spath('%s%d.tmp' % (name, i))
        os.makedirs(tmp, exist_ok=True)
        open(src, 'w').write(''.join(json.dumps(x) + '\n' for x in parts[i]))
        rc, o, e = run([exe, src, out, tmp], timeout=300)
        if rc: return None, 'the driver ended with %s: %s' % (rc, e[-3000:]), out
        return tlc_must(module, consts, view='View', env={'RUNS': out}, heap='5g', workers=2, timeout=800), '', out
    other = {}
    for r, e, f in parallel([lambda i=i: part(i) for i in range(4)], 4):
        if r is None:
            c.violation(e)
            continue
        c.model(r)
        for m in r.msgs:
            x = re.match(r'<<"BAD", "([^"]*)", (\d+), "(\w+)", \{([^}]*)\}, (.*)', m, re.S)
            if not x: raise CheckError('unexpected output: ' + m[:500])
            i, pos, op, bad, info = x.groups()
            if mine(op):
                h = next(y for y in map(json.loads, open(f)) if y['id'] == i)
                c.violation('script %s, operation %s (%s): unexpected %s: %s' % (i, pos, op, bad, re.sub(r'\s+', ' ', info)[:700]), {'script': h['ops'][:int(pos)], 'report': m[:6000]},
                            key='codehash-zero' if op == 'vhash' and re.search(r'"", <<(0, ){31}0>>, <<', info) else None)
            else: other[op] = other.get(op, 0) + 1
    c.traces(len(scripts)); c.sample(scripts[len(scripts) // 2])
    if other: c.note('differences_of_the_other_property', other)

def viewing(op): return op.startswith('v') or op in ('params', 'codehash')

def pairs():
    """A state and a copy that differs by one operation (or not at all: zeros that are stored, nothing that is added)."""
    Z = '0'
    single = [('hashes', [[Z] * 256]), ('hashes', [[]]), ('hashes', [[Z] * 255 + ['1']]), ('hashes', [['1']]), ('setcur', ['1', Z]), ('setcur', ['7', Z]), ('setcur', ['7', '1']), ('setorig', ['7', Z]), ('setorig', ['1', Z]), ('setorig', ['7', '2']),
              ('settrans', ['7', Z]), ('settrans', ['2', Z]), ('settrans', ['7', '1']), ('delcur', ['7']), ('delcur', ['1']), ('delorig', ['2']), ('delorig', ['7']), ('warm', ['2']), ('warm', ['7']), ('cold', ['2']), ('cold', ['7']),
              ('balance', ['1', '7']), ('balance', ['1', Z]), ('balance', ['0', Z]), ('balance', ['0', '1']), ('awarm', ['2']), ('awarm', ['0']), ('accounts', [[], []]), ('accounts', [[['0', Z, []]], []]), ('storage', [[], [], []]),
              ('mset', [[0] * 32]), ('mset', [[0] * 64]), ('mset', [[]]), ('mappend', [[]]), ('stack', [['2']]), ('stack', [[]]), ('stack', [[Z]]), ('push', [Z]), ('pop', []), ('blobs', [[]]), ('blobs', [['1']]), ('blobs', [['1', Z]]), ('blob', [1, Z]),
              ('log', [[], []]), ('log', [[Z], []]), ('logbyte', [1, 1, 0]), ('logtopic', [1, 1, Z]), ('sdentry', ['1', '1']), ('sdset', [1, '1', '2']), ('code', [[96, 1]]), ('code', [[96]]), ('code', [[96, 1, 0]]), ('code', [[]]),
              ('expect', [[False, [], 0, 0, Z]]), ('futuregas', [1, 3]), ('call', [['call', '1', '2', [], Z, 0, Z]])]
    for p, vs in [('status', ['stopped', 'failed', 'running']), ('revision', [0, 1, 5]), ('readonly', [True, False]), ('destructed', [True, False]), ('pc', [0, 1, 2]), ('gas', ['0', '1']), ('refund', ['0', '1']), ('self', ['0', '1']), ('caller', ['0', '1']),
                  ('value', [Z, '1']), ('number', ['0', '1']), ('coinbase', ['0', '1']), ('limit', ['0', '1']), ('time', ['0', '1']), ('calldata', [[], [0]]), ('lastret', [[], [0]]), ('ret', [[], [0]]), ('origin', ['0', '1'])] + [(b, [Z, '1']) for b in BLOCKWORDS]:
        single += [('set', [p, v]) for v in vs]
    # with and without what the parts hold already
    for i, pre in enumerate([[(1, 'new', [])], PREFIX, PREFIX + [(1, 'hashes', [[Z] * 256]), (1, 'set', ['status', 'running'])]]):
        for j, (o, a) in enumerate(single):
            if i == 0 and o in ('pop', 'blob', 'logbyte', 'logtopic', 'sdset', 'futuregas', 'call'): continue
            for g in (1, 2):
                ops = pre + [(1, 'clone', [2]), (g, o, a), (1, 'compare', [2]), (2, 'compare', [1])]
                yield {'id': 'p%d-%d-%d' % (i, j, g), 'ops': [{'h': h, 'op': o, 'a': a} for h, o, a in ops]}

def s04(c):
    """States of the conformance tool are values."""
    m = histories(c, T(2, 3))
    scripts = []
    for i, l in enumerate(m.msgs):
        if not l.startswith('<<"H"'): continue
        scripts.append(l)
    r = random.Random(SEED * 1000 + 601)
    c.note('model_histories', len(scripts))
    hs = [hist(i, l) for i, l in enumerate(scripts)]
    hs += [{'id': 'r%d' % i, 'ops': Script(r, r.choice([20, 40, 80]), .15).ops} for i in range(T(400, 6000))]
    hs += pairs()
    validate(c, hs, lambda op: not viewing(op), 's04')

def s05(c):
    """The view of a state that is handed to interpreters."""
    r = random.Random(SEED * 1000 + 602)
    c.model(tlc_must('CtStateMC', dict(Depth=1, Emit='FALSE'), invariants=['CopiesEqual', 'Equivalence', 'Congruence'], properties=['Frame']))
    validate(c, [{'id': 'v%d' % i, 'ops': Script(r, r.choice([20, 40, 80]), .75).ops} for i in range(T(900, 8000))], viewing, 's05')

PREFIX = [(1, 'new', []), (1, 'code', [[96, 1]]), (1, 'push', ['2']), (1, 'mset', [[0] * 32]), (1, 'storage', [[['1', '1'], ['2', '2']], [['2', '1']], ['2']]), (1, 'settrans', ['2', '2']),
          (1, 'accounts', [[['1', '7', [1]]], ['2']]), (1, 'log', [['1'], [5]]), (1, 'expect', [[False, [], 2, 0, '0']]), (1, 'blobs', [['1']]), (1, 'sdentry', ['1', '1'])]

def hist(i, l):
    """A history printed by the model, followed by comparisons."""
    text = re.search(r'<<"H", (.*)>>$', l, re.S).group(1)
    text = text.replace('<<', '[').replace('>>', ']').replace('TRUE', 'true').replace('FALSE', 'false')
    ops = json.loads(records(text))
    return {'id': 'm%d' % i, 'ops': [{'h': h, 'op': o, 'a': a} for h, o, a in PREFIX] + ops + [{'h': h, 'op': 'compare', 'a': [g]} for h in (1, 2) for g in (1, 2)]}

def records(text):
    """JSON for the records [h |-> .., op |-> .., a |-> ..] in any order of the fields."""
    out, i = [], 0
    stack = []
    while i < len(text):
        m = re.match(r'\[\s*(?=\w+ \|->)', text[i:])
        if m:
            stack.append('}'); out.append('{'); i += m.end(); continue
        if text[i] == '[': stack.append(']'); out.append('['); i += 1; continue
        if text[i] == ']': out.append(stack.pop()); i += 1; continue
        m = re.match(r'(\w+) \|->', text[i:])
        if m: out.append('"%s":' % m.group(1)); i += m.end(); continue
        m = re.match(r'"[^"]*"', text[i:])
        if m: out.append(m.group(0)); i += m.end(); continue
        out.append(text[i]); i += 1
    return ''.join(out)
