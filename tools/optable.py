"""Judging of opcode tables by spec/OpTable.tla (shared by O01 and G01)."""
import re
from vlib import *


def names():
    """Instruction names of the specification."""
    s = open(VERIF + '/spec/Instr.tla').read()
    n = re.findall(r'<<\d+, "(\w+)", \d+, \d+, \d+, \d+>>', s)
    return n + ['PUSH%d' % i for i in range(1, 33)] + ['DUP%d' % i for i in range(1, 17)] + ['SWAP%d' % i for i in range(1, 17)] + ['LOG%d' % i for i in range(5)]


def judge(c, rows):
    f = spath('rows.ndjson')
    open(f, 'w').write(rows)
    r = tlc('OpTable', invariants=['Agrees'], env={'TRACES': f}, workers=1)
    n = len(rows.splitlines())
    bad = [l for l in r.msgs if l.startswith('<<"BAD"')]
    if not r.ok and not r.invariant and not bad: raise CheckError(r.out[-3000:])
    if r.ok and r.distinct != n + 1: raise CheckError('rows were skipped')
    c.model(r)
    c.traces(n)
    c.sample(rows.splitlines()[1])
    c.note('exhaustive', 'all 256 byte values')
    for l in bad: c.violation('the table departs from the specification: ' + l)
    if r.invariant and not bad: c.violation('the table departs from the specification: row not accepted')
