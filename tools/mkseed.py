#!/usr/bin/env python3
"""mkseed.py FILE: FILE (Python) defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)...], demo=C++ text)].
Makes /verif/seeded/<id>, after confirming in a scratch copy that the patched tree builds, that the stable tests
pass, that the demonstration passes without the patch and fails with it. Development tool: no check uses it."""
import json, os, shutil, subprocess, sys, re
W = '/tmp/seedwork'; VP = '/tmp/seedvp'
DEMO = '''#!/bin/bash
# Run with the repository's root as cwd, after the build.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 3; trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -g -O1 -w -include limits -I. -Ipire -I_build -I_build/pire "$d/demo.cpp" _build/pire/.libs/libpire.a -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def setup():
    for d in (W, VP): shutil.rmtree(d, ignore_errors=True)
    sh('cp -a /repo %s && cp -a /opt/vp %s' % (W, VP))
    sh("grep -rlI '/repo' --include=Makefile --include=config.status --include=libtool --include='*.Po' --include='*.Plo' --include='*.la' %s/_build | xargs sed -i 's#/repo#%s#g'" % (W, W))
    sh("sed -i 's#/repo#%s#g; s#/opt/vp#%s#g' %s/*.sh %s/run_cases.py" % (W, VP, VP, VP))
    r = sh('bash %s/build.sh' % VP)
    if r.returncode: print(r.stdout[-1500:]); sys.exit('scratch build broken')
def tests():
    if sh('bash %s/build.sh' % VP).returncode: return 'does not build: ' + sh('bash %s/build.sh' % VP).stdout[-800:]
    sh('bash %s/test.sh %s/out.json' % (VP, VP)); got = set(json.load(open(VP + '/out.json'))['passed'])
    base = json.load(open('/opt/vp/BASELINE.json')); base = base.get('passed', base.get('stable', base))
    miss = [t for t in base if t not in got]
    return 'tests fail: %s' % miss[:4] if miss else None
def one(s):
    d = '/tmp/seedout/' + s['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh('git -C %s checkout -q -- .' % W)
    open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n')); open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    e = tests()
    if e: return 'clean tree: ' + e
    r = sh('bash %s/demo.sh' % d, cwd=W)
    if r.returncode: return 'demo fails on the clean tree: ' + r.stdout[-1200:]
    for f, a, b in s['edits']:
        t = open(W + '/' + f).read()
        if t.count(a) != 1: return 'edit matches %d times in %s: %r' % (t.count(a), f, a[:60])
        open(W + '/' + f, 'w').write(t.replace(a, b))
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff --no-color' % W).stdout)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    e = tests()
    if e: return e
    r = sh('bash %s/demo.sh' % d, cwd=W)
    if r.returncode in (0, 2): return 'demo exits %d with the patch: %s' % (r.returncode, r.stdout[-600:])
    dst = '/verif/seeded/' + s['id']; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
    return None
g = {}; exec(open(sys.argv[1]).read(), g)
setup()
for s in g['SEEDS']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
    print(s['id'], one(s) or 'OK', flush=True)
for d in (W, VP): shutil.rmtree(d, ignore_errors=True)
