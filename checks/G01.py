"""G01: the Go opcode table agrees with the EVM instruction set."""
import json, re, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from vlib import *
from optable import judge, names


def check(c):
    src = open(VERIF + '/drivers/go/optable/main.go').read().replace('ENUMS', '\n'.join('"%s": vm.%s,' % (n, n) for n in names()))
    f = spath('main.go')
    open(f, 'w').write(src)
    b = go_build('./go/zz_verif_optable', spath('optable'), {'go/zz_verif_optable/main.go': f})
    rc, o, e = run([b], timeout=60)
    if rc != 0:
        c.violation('reading the opcode table failed: ' + e[-1500:], {'stderr': e})
        return
    judge(c, o)


main(check, 'G01')
