#!/usr/bin/env python3
"""Plant a bug: mkbug.py SPEC.py  (SPEC defines id, prop, edits=[(file,old,new)], demo (C++ text), needs, breaks,
optional extra (sources to compile in), flags).  Verifies build, tests and demo, then runs the property's quick check."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = dict(extra='', flags='', script=None, also=[], files=[])
exec(open(sys.argv[1]).read(), ns)
d = os.path.join(V, 'seeded', ns['id']); os.makedirs(d, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
ok = False
try:
    for f, a, b in ns['edits']:
        p = '/repo/' + f; s = open(p).read(); assert s.count(a) == 1, (f, s.count(a), a); open(p, 'w').write(s.replace(a, b))
    open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    if ns['script']: open(d + '/demo.sh', 'w').write(ns['script'])
    else:
        open(d + '/demo.cpp', 'w').write(ns['demo'].lstrip())
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run in /repo after the build: exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
g++ -w -O1 -I. %s -o "$t/demo" "$here/demo.cpp" %s _build/liblunar.a -lm || exit 3
cd "$t" && timeout 120 ./demo
''' % (ns['flags'], ns['extra']))
    if 'demo' in ns and ns['script']: open(d + '/demo.cpp', 'w').write(ns['demo'].lstrip())
    for f in ns['files']:
        os.makedirs(os.path.dirname(os.path.join(d, f[1])), exist_ok=True); shutil.copy(f[0], os.path.join(d, f[1]))
    json.dump(dict(property=ns['prop'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(d + '/meta.json', 'w'), indent=1)
    b = sh('bash /opt/vp/build.sh'); assert b.returncode == 0, b.stdout[-2000:]
    sh('bash /opt/vp/test.sh /tmp/mkbug.json')
    o = json.load(open('/tmp/mkbug.json')); base = json.load(open('/opt/vp/BASELINE.json'))
    miss = sorted(set(base['stable']) - set(o['passed'])); print('tests failing:', miss[:5]); assert not miss
    r = sh('bash %s/demo.sh' % d, cwd='/repo'); print('demo with bug:', r.returncode, r.stdout[-300:]); assert r.returncode not in (0, 3)
    for p in [ns['prop']] + ns['also']:
        c = sh('python3 run.py %s quick' % p, cwd=V); print('check', p, c.returncode, c.stdout[-600:])
    ok = True
finally:
    sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
r = sh('bash %s/demo.sh' % d, cwd='/repo'); print('demo clean:', r.returncode, r.stdout[-300:]); assert r.returncode == 0 and ok
