"""O01: the C++ opcode table is complete, unique and correctly classified."""
import json, re, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from vlib import *
from optable import judge, names


def check(c):
    src = open(VERIF + '/drivers/optable.cc').read().replace('ENUMS', '\n'.join('  E(%s)' % n for n in names()))
    f = spath('optable.cc')
    open(f, 'w').write(src)
    b = cxx_build([f], spath('optable'), ['-O1', '-fsanitize=address,undefined'])
    rc, o, e = run([b], timeout=60)
    if rc != 0:
        c.violation('reading the opcode table failed: ' + e[-1500:], {'stderr': e})
        return
    judge(c, o)


main(check, 'O01')
