#!/usr/bin/env python3
"""plant.py FILE.py: FILE defines ID, PROPERTY, EDITS=[(file, old, new)...], NEEDS, BREAKS, DEMO (C++ text).
Makes seeded/<ID>/ after confirming in a scratch copy of /repo that the change builds, passes the stable
tests and makes the demonstration fail, which passes without it."""
import json, os, re, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
if 'PLANTS' in ns:          # a file with several: plant.py FILE.py ID
    ns = next(p for p in ns['PLANTS'] if p['ID'] == sys.argv[2])
skiptests = '--fast' in sys.argv
d = tempfile.mkdtemp(prefix='plant')
w = d + '/repo'
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
try:
    sh('cp -a /repo %s' % w)
    out = d + '/s'
    os.makedirs(out)
    for f, old, new in ns['EDITS']:
        p = w + '/HeuristicFlow/src/' + f
        s = open(p).read()
        nth = 0
        if isinstance(old, tuple):
            old, nth = old
        assert s.count(old) >= 1 and (s.count(old) == 1 or isinstance(nth, int)), (f, old, s.count(old))
        if s.count(old) > 1 and nth == 0:
            sys.exit('ambiguous (%d): %s' % (s.count(old), old))
        if nth > 0:
            parts = s.split(old)
            s = old.join(parts[:nth]) + new + old.join(parts[nth:])
        else:
            s = s.replace(old, new)
        open(p, 'w').write(s)
    r = sh('git diff', cwd=w)
    open(out + '/patch.diff', 'wb').write(r.stdout)
    own = []                # removed lines must be lines of the original repository
    for f in {e[0] for e in ns['EDITS']}:
        d0 = sh('git diff -U0 -- HeuristicFlow/src/' + f, cwd=w).stdout.decode()
        bl = sh('git blame -s --abbrev=7 HEAD -- HeuristicFlow/src/' + f, cwd=w).stdout.decode().splitlines()
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))?', d0, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            own += [bl[k - 1] for k in range(a, a + n)]
    new = set(x[:7] for x in sh('git rev-list 8000f3e..HEAD', cwd=w).stdout.decode().split())
    mine = [x for x in own if x[:7] in new]
    if not own or len(mine) == len(own):
        print('WARNING: no original line removed', own)
    open(out + '/demo.cpp', 'w').write(ns['DEMO'])
    open(out + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the property holds for the demonstrated input
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -f "$t/d"; rmdir "$t"' EXIT
g++ -std=c++17 -w -O1 %s -fopenmp -I. -I/usr/include/eigen3 "$here/demo.cpp" -o "$t/d" || exit 8
timeout 60 "$t/d"
''' % ns.get('FLAGS', ''))
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    # without
    r = sh('bash %s/demo.sh' % out, cwd='/repo')
    if r.returncode:
        print(r.stdout.decode()[-1500:]); sys.exit('demo fails on the unchanged tree: %d' % r.returncode)
    r = sh('bash %s/demo.sh' % out, cwd=w)
    print('demo with patch: exit', r.returncode, r.stdout.decode()[-300:])
    if r.returncode in (0, 8, 9):
        sys.exit('demo does not fail with the patch')
    if not skiptests:
        # build and test the changed copy in place of /repo's build tree
        sh('sed -e "s#/repo#%s#g" /opt/vp/build.sh > %s/b.sh; sed -e "s#/opt/vp/build.sh#%s/b.sh#; s#/repo#%s#g" /opt/vp/test.sh > %s/t.sh' % (w, d, d, w, d))
        shutil.rmtree(w + '/_build', ignore_errors=True)
        r = sh('bash %s/b.sh' % d)
        if r.returncode:
            print(r.stdout.decode()[-1500:]); sys.exit('does not build')
        r = sh('bash %s/t.sh %s/o.json' % (d, d))
        res = json.load(open(d + '/o.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        missing = [t for t in base['stable'] if t not in res['passed']]
        if missing:
            sys.exit('tests fail with the change: %s' % missing)
    dst = '/verif/seeded/' + ns['ID']
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    print('planted', dst)
finally:
    shutil.rmtree(d, ignore_errors=True)
