"""Plant a bug: python3 tools/seed.py FILE.py   where FILE.py defines ID, PROP, EDITS=[(file, old, new)],
DEMO (C++ main returning 0 when right), NEEDS, BREAKS, optional SRCS (src/*.cc to link), RUN (how many runs).
Confirms build, tests, demo on both trees, then runs the property's quick check."""
import sys, os, json, subprocess, shutil
R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main(f):
    g = {}; exec(open(f).read(), g)
    assert sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip() == b'', 'dirty /repo'
    d = '/verif/seeded/' + g['ID']
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.cc', 'w').write(g['DEMO'])
    srcs = ' '.join('src/' + s for s in g.get('SRCS', []))
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -O1 -w %s -Iinclude "$here/demo.cc" %s -pthread -o "$tmp/demo" || exit 2
timeout 120 "$tmp/demo"
''' % (g.get('FLAGS', ''), srcs))
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    r = sh('bash %s/demo.sh' % d, cwd=R)
    if r.returncode: print('DEMO FAILS ON CLEAN TREE', r.stdout.decode()[-1500:]); return 1
    try:
        for fn, old, new in g['EDITS']:
            p = os.path.join(R, fn); t = open(p).read()
            assert t.count(old) == 1, ('edit matches %d times' % t.count(old), fn, old)
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'wb').write(sh('git -C /repo diff').stdout)
        r = sh('bash /opt/vp/build.sh')
        if r.returncode: print('BUILD FAILS', r.stdout.decode()[-2000:]); return 1
        sh('bash /opt/vp/test.sh /tmp/seed-out.json')
        o = json.load(open('/tmp/seed-out.json')); b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        miss = b - set(o['passed'])
        if miss: print('TESTS CATCH IT', list(miss)[:5]); return 1
        r = sh('bash %s/demo.sh' % d, cwd=R)
        print('demo rc with patch:', r.returncode, r.stdout.decode()[-300:])
        if r.returncode in (0, 2): print('DEMO DOES NOT FAIL'); return 1
        r = sh('python3-vt -m gv.run %s quick' % g['PROP'], cwd='/verif')
        print('CHECK rc=%d' % r.returncode, r.stdout.decode()[-1500:])
    finally:
        sh('git -C /repo checkout -- .')
        if os.path.exists('/tmp/seed-out.json'): os.unlink('/tmp/seed-out.json')
    return 0
for f in sys.argv[1:]:
    print('=====', f)
    if main(f): print('*** NOT KEPT:', f)
