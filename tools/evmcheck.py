"""Runs EVM cases on the real C++ interpreter and validates the recordings with TLC."""
import collections, json, os, random, re
import evmgen
from vlib import *

EVMZERO = ['evmzero.cc', 'allocator.cc', 'interpreter.cc', 'memory.cc', 'opcodes.cc', 'stack.cc']
PLAIN = ('-O0',)
ASAN = ('-O0', '-fsanitize=address')
TSAN = ('-O1', '-fsanitize=thread')


def build(flags=PLAIN, name='evm', cxx='g++', driver='evm.cc'):
    src = [os.path.join(REPO, 'cpp/vm/evmzero', f) for f in EVMZERO] + [os.path.join(VERIF, 'drivers', driver)]
    return cxx_build(src, spath(name), flags=list(flags), libs=absl_libs(), cxx=cxx)


class Recording:
    def __init__(self, cases, prefix, runs): self.cases, self.prefix, self.runs = cases, prefix, runs


def record(c, exe, cases, mode, arg=0, tag='', env=None, timeout=240):
    """Runs the cases; a crash or a hang is a violation of its own."""
    pre = spath('cases-%s%s' % (mode, tag))
    evmgen.write(cases, pre)
    runs = pre + '.runs'
    e2 = dict(TSAN_OPTIONS='halt_on_error=1 exitcode=66', ASAN_OPTIONS='detect_leaks=0', **(env or {}))
    rc, o, e = run([exe, pre + '.txt', runs, mode, str(arg)], timeout=timeout, env=e2, stdout_file='/dev/null')
    if rc == 0: return Recording(cases, pre, runs)
    cur = open(runs + '.case').read().strip() if os.path.exists(runs + '.case') else '?'
    case = [x for x in cases if x.id == cur]
    what = 'did not end' if rc is None else 'crashed (exit code %s)' % rc
    c.violation('the execution of %s %s in mode %s\n%s' % (cur, what, mode, e[-1500:]), {'case': case[0].text() if case else cur, 'stderr': e[-6000:]}, key='crash')
    return None


class Report:
    """A difference between a recorded execution and the specification.

    case    the case                    op      instruction, or END for the outcome of uninterrupted executions
    tag     how it was recorded         fields  observables that differ
    pos     observation                 status, why, code   prescribed status and reasons, observed status code
    """
    def __init__(self, m, byid):
        x = re.match(r'<<"BAD", "([^"]*)", "([^"]*)", (\d+), "([^"]*)", \{([^}]*)\}, (.*)', m, re.S)
        if not x: raise CheckError('unreadable report: ' + m[:300])
        self.case, self.tag, self.pos, self.op = byid[x.group(1)], x.group(2), int(x.group(3)), x.group(4)
        self.fields = set(re.findall(r'"([^"]+)"', x.group(5)))
        self.raw, rest = m, x.group(6)
        self.status = re.search(r'status \|-> "(\w+)"', rest).group(1)
        self.why = set(re.findall(r'"(\w+)"', re.search(r'why \|-> \{([^}]*)\}', rest).group(1)))
        self.code = int(re.search(r'\bcode \|-> (-?\d+)', rest).group(1))

    def text(self):
        x = self.case
        return ('case %s (%s), %s: observed %s differs from the specification\n    code %s gas %d revision %d\n    %s'
                % (x.id, self.tag, 'at the end' if self.op == 'END' else 'observation %d %s' % (self.pos, self.op), '/'.join(sorted(self.fields)),
                   x.code.hex()[:200], x.gas, x.rev, self.raw[:1200]))


def compare(c, rec, heap='8g', timeout=800, module='EvmTrace', nxt='Next'):
    """TLC compares a recording with the specification: all differences and the number of open runs."""
    if rec is None: return [], 0
    r = tlc(module, nxt=nxt, view='View', invariants=['Inv'], env={'CASES': rec.prefix + '.ndjson', 'RUNS': rec.runs}, heap=heap, timeout=timeout)
    if not r.ok: raise CheckError('TLC failed on the trace:\n' + '\n'.join(l for l in r.out.split('\n') if 'rror' in l or 'ttempt' in l or 'verflow' in l)[:1500] + r.out[-1500:])
    c.model(r)
    byid = {x.id: x for x in rec.cases}
    opened = sum(m.startswith('<<"OPEN"') for m in r.msgs)
    c.traces(sum(1 for _ in open(rec.runs)) - opened)
    if rec.cases: c.sample({'case': rec.cases[len(rec.cases) // 2].id, 'code': rec.cases[len(rec.cases) // 2].code.hex()[:300]})
    return [Report(m, byid) for m in r.msgs if m.startswith('<<"BAD"')], opened


def judge(c, reports, accept):
    """Reports the differences that concern the property."""
    for x in reports:
        if accept(x): c.violation(x.text(), {'case': x.case.text(), 'report': x.raw[:8000]})
        else: c.notes['differences_of_other_properties'] = c.notes.get('differences_of_other_properties', 0) + 1


def standard(c, cases, accept, flags=PLAIN, mode='steps', arg=0):
    """Build, record, compare and judge."""
    exe = build(flags)
    reports, opened = compare(c, record(c, exe, cases, mode, arg))
    c.note('cases', len(cases)); c.note('open', opened)
    judge(c, reports, accept)
    return exe
