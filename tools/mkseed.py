#!/usr/bin/env python3
"""mkseed.py DIR: DIR holds edit.py (edits the copy of /repo it runs in), demo.sh,
meta.json and helper files.  Makes patch.diff, confirms it builds, passes the
stable tests and that the demo tells the difference, and stores it under seeded/."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = os.path.abspath(sys.argv[1])
name = os.path.basename(src)
d = tempfile.mkdtemp(prefix='seed-')
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
try:
    demo = d + '/demo'
    shutil.copytree(src, demo)
    os.remove(demo + '/edit.py')
    r = sh('bash /opt/vp/build.sh', cwd='/repo')
    assert r.returncode == 0, r.stdout
    r0 = sh('timeout 300 bash %s/demo.sh' % demo, cwd='/repo')
    print('unchanged: demo', r0.returncode)
    assert r0.returncode == 0, r0.stdout
    assert sh('git status --porcelain', cwd='/repo').stdout == ''
    r = sh('python3 %s/edit.py && git diff > %s/patch.diff' % (src, d), cwd='/repo')
    try:
        assert r.returncode == 0 and os.path.getsize(d + '/patch.diff'), r.stdout
        r = sh('bash /opt/vp/test.sh %s/t.json' % d, cwd='/repo')
        t = json.load(open(d + '/t.json'))
        b = json.load(open('/opt/vp/BASELINE.json'))
        want = b if isinstance(b, list) else b.get('passed') or b.get('tests') or b.get('stable')
        missing = [x for x in want if x not in t['passed']]
        print('patched: tests passed', len(t['passed']), 'missing', missing)
        r1 = sh('timeout 300 bash %s/demo.sh' % demo, cwd='/repo')
        print('patched: demo', r1.returncode)
        print(r1.stdout[-500:])
        ok = not missing and r1.returncode != 0
    finally:
        sh('git checkout -- .', cwd='/repo')
    sh('bash /opt/vp/build.sh', cwd='/repo')
    if ok:
        out = V + '/seeded/' + name
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(src, out)
        os.remove(out + '/edit.py')
        shutil.copy(d + '/patch.diff', out)
        print('stored', out)
    else:
        print('NOT A VALID SEED'); sys.exit(1)
finally:
    shutil.rmtree(d, ignore_errors=True)
