"""The check of geth's interpreter and its adapter for the conformance tool (A03)."""
import json, random, re
from vlib import *
import stchecks as S
from stchecks import T, KEYS, ADDRS

ENDS = ['stop', 'stop', 'stop', 'revert', 'revert', 'gas', 'wrapped', 'codegas', 'depth', 'balance', 'collision', 'size', 'jump', 'write', 'returndata', 'overflow', 'code', 'underflow', 'stackoverflow', 'opcode', 'other']
GASES = ['0', '1', '100', '500000000000', str(2 ** 63 - 1), str(2 ** 53 + 1)]
TIMES = ['1388', '10000000000', '7fffffffffffffff']

class Steps(S.Script):
    """Scripts with executions; revisions and times belong together, and refunds can be computed with."""
    def __init__(self, r, n):
        super().__init__(r, n, .2)
    def fill(self, h):
        super().fill(h)
        r = self.r
        for a in r.sample(ADDRS, 3): self.add(h, 'balance', a, self.word())
        self.tidy(h)
    def tidy(self, h):
        r = self.r
        for p, v in [('revision', r.choice([0, 1, 2, 3, 4, 5, 5, 5])), ('time', r.choice(TIMES)), ('refund', str(r.choice([0, 0, 1, 50, 200]))), ('gas', r.choice(GASES))]: self.add(h, 'set', p, v)
        if r.random() < .05: self.add(h, 'set', 'revision', 6)
        if r.random() < .9: self.add(h, 'set', 'status', 'running')
        if r.random() < .5: self.add(h, 'set', 'self', r.choice(ADDRS))
        if r.random() < .3: self.add(h, 'hashes', [r.choice(S.WORDS[2:]) for _ in range(256)]); self.add(h, 'set', 'number', r.choice(S.U64))
        if r.random() < .1: self.add(h, 'mgrow', 0, r.choice([1025, 1400, 2500]))
        for _ in range(r.randrange(3)): self.add(h, 'expect', [r.random() < .6, self.data(8), r.choice([0, 1, 5, 100]), r.choice([0, 7, -3]), self.addr()])
    def step(self):
        r = self.r
        if r.random() < .45:
            h = r.choice(sorted(self.live))
            self.tidy(h)
            t = self.live[h]
            if r.random() < .3:
                self.add(h, 'run', [a for _ in range(r.choice([1, 2, 5])) for a in self.actions(None, False)], r.choice(ENDS), self.data(8))
                return
            k = r.choice([0, 1, 1, 1, 2, 3, 6])
            self.add(h, 'stack', [self.word() for _ in range(6)])
            t['stack'], x = 6, dict(stack=6, mem=0)
            script = [[a for _ in range(r.choice([1, 1, 2, 4])) for a in self.actions(x, True)] + ([['status', r.choice(['stopped', 'reverted', 'failed'])]] if r.random() < .12 else []) for _ in range(max(0, k + r.choice([0, 0, 0, 1, -1])))]
            g = r.choice([y for y in range(1, 5) if y != h]) if r.random() < .4 and k > 1 else 0
            if g: self.add(h, 'clone', g)
            self.add(h, 'step', k, script)
            if g:       # instruction by instruction
                for i in range(k): self.add(g, 'step', 1, [script[i]] if i < len(script) else [])
                self.add(h, 'compare', g)
                self.live[g] = json.loads(json.dumps(t))
                self.drop(g)
            self.drop(h)
        else: super().step()
    def drop(self, h):
        """Registers of unknown size are set anew."""
        self.add(h, 'stack', [])
        self.live[h].update(stack=0, logs=[], past=0, future=0, sdj=0)
    def actions(self, x, registers):
        r = self.r
        kinds = ['env'] * 2 + ['load', 'load', 'store', 'store', 'committed', 'tload', 'tstore', 'balance', 'size', 'code', 'exist', 'empty', 'log', 'refund', 'inlist', 'slotinlist', 'access', 'slot', 'destruct', 'destructed', 'block', 'gas']
        if registers: kinds += ['push', 'push', 'pop', 'grow', 'write', 'pc', 'pc', 'last', 'ret', 'interpreter', 'interpreter', 'interpreter'] + ['call'] * 7
        k = r.choice(kinds)
        A = lambda *a: [[k] + list(a)]
        if k == 'push':
            x['stack'] += 1; return A(self.word())
        if k == 'pop':
            if not x['stack']: return []
            x['stack'] -= 1; return A()
        if k == 'grow': return A(r.choice([0, 1, 31, 32, 33, 40, 64, 65, 96, 1024, 1500, 4000]))
        if k == 'write':
            d, o = self.data(), r.choice([0, 1, 31, 32, 33, 64])
            return [['grow', o + len(d)], ['write', o, d]] if d else []
        if k == 'pc': return A(r.choice([0, 1, 2, 5, 60, 1000, 65535]))
        if k == 'gas': return A(r.choice(GASES))
        if k in ('last', 'ret'): return A(self.data())
        if k in ('load', 'committed', 'tload', 'slotinlist', 'slot'): return A(self.key())
        if k in ('store', 'tstore'): return A(self.key(), self.word())
        if k in ('balance', 'size', 'code', 'exist', 'empty', 'inlist', 'access', 'destruct'): return A(self.addr())
        if k == 'log': return A([self.word() for _ in range(r.randrange(5))], self.data(8))
        if k == 'refund': return A(r.choice([0, 1, 4, 7]))
        if k == 'block': return A(r.choice([1, 2, 3, 100, 255, 256, 257]))
        if k == 'call': return A(r.choice(['call', 'call', 'static_call', 'delegate_call', 'call_code', 'create', 'create2']), self.addr(), self.data(8), self.word(), r.choice([0, 1, 5, 100, 10 ** 9]))
        return A()

def validate(c, scripts):
    files = {'go/zz_verif_ctstate/%s.go' % f: os.path.join(VERIF, 'drivers/go/ctstate/%s.go' % f) for f in ('main', 'geth')}
    S.validate(c, scripts, lambda op: op in ('step', 'run', 'compare'), 'a03', files, 'GethStepTrace', {'Effect': '<- GApply'})

def hist(i, l):
    """The model's executions, as scripts: in one go, and one by one."""
    text = re.search(r'<<"H", (.*)>>$', l, re.S).group(1).replace('<<', '[').replace('>>', ']').replace('TRUE', 'true').replace('FALSE', 'false')
    start, script = json.loads('[' + S.records(text) + ']')
    pre = [(1, 'new', []), (1, 'code', [[96, 1]]), (1, 'push', ['2']), (1, 'mset', [[1, 2, 3]]), (1, 'storage', [[['1', '1'], ['2', '2']], [['2', '1']], ['2']]), (1, 'accounts', [[['1', '7', [1]], ['0', '7', []]], ['2']]),
           (1, 'set', ['refund', '5']), (1, 'set', ['pc', 1]), (1, 'set', ['lastret', [9]]), (1, 'set', ['ret', [8]]), (1, 'set', ['gas', '100']), (1, 'expect', [[True, [4], 2, 7, '2']]), (1, 'expect', [[False, [5, 6], 200, -3, '1']])]
    pops, one = 1, []
    ops = [{'h': h, 'op': o, 'a': a} for h, o, a in pre] + start + [{'h': 1, 'op': 'clone', 'a': [2]}, {'h': 1, 'op': 'step', 'a': [len(script), script]}]
    ops += [{'h': 2, 'op': 'step', 'a': [1, [x]]} for x in script] + [{'h': 1, 'op': 'compare', 'a': [2]}]
    return {'id': 'm%d' % i, 'ops': ops}

def a03(c):
    m = tlc_must('GethStepMC', dict(Length=T(2, 3), Emit='TRUE'), invariants=['Composes', 'Frame', 'Final', 'Positions', 'Journal', 'RunFrame', 'Emitted'], heap='8g', timeout=800)
    c.model(m)
    hs = [hist(i, l) for i, l in enumerate(l for l in m.msgs if l.startswith('<<"H"'))]
    c.note('model_histories', len(hs))
    r = random.Random(SEED * 1000 + 603)
    hs += [{'id': 'g%d' % i, 'ops': Steps(r, r.choice([20, 40, 80])).ops} for i in range(T(900, 8000))]
    c.note('executions', sum(o['op'] in ('step', 'run') for h in hs for o in h['ops']))
    validate(c, hs)
