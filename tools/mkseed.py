"""Make one planted bug:  mkseed.py SPEC.py
SPEC.py defines id, property, needs, breaks, edits=[(file,old,new)], demo (python text).
Confirms: patch applies to HEAD, changes original lines only, stable tests pass, demo 0/nonzero."""
import sys, os, subprocess, shutil, json, runpy
S = runpy.run_path(sys.argv[1])
sid = S['id']
W = '/tmp/seedwt'
shutil.rmtree(W, ignore_errors=True)
subprocess.run(['cp', '-a', '/repo', W], check=True)
sh = lambda c, cwd=W, **k: subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
D = '/verif/seeded/' + sid
os.makedirs(D, exist_ok=True)
for m in S.get('mc', []):
    os.makedirs(D + '/mc', exist_ok=True)
    shutil.copy('/verif/mc/' + m + '.py', D + '/mc/')
open(D + '/demo.py', 'w').write("import os, sys\nsys.dont_write_bytecode = True\n"
    "sys.path.insert(0, os.path.join(os.getcwd(), 'src'))\n"
    + ("sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))\n" if S.get('mc') else '') + S['demo'].lstrip('\n'))
open(D + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
r = sh('bash %s/demo.sh' % D)
if r.returncode:
    print('DEMO FAILS ON CLEAN', r.stdout[-1500:], r.stderr[-1500:]); sys.exit(1)
root = sh('git rev-list --max-parents=0 HEAD').stdout.split()
for f, old, new in S['edits']:
    p = W + '/' + f
    t = open(p).read()
    assert t.count(old) == 1, (f, t.count(old), old)
    ln0 = t[:t.index(old)].count('\n') + 1
    b = sh('git blame -s --root -L %d,%d %s' % (ln0, ln0 + max(old.rstrip('\n').count('\n'), 0), f)).stdout
    base = open('/verif/tools/base').read().strip() if os.path.exists('/verif/tools/base') else None
    open(p, 'w').write(t.replace(old, new))
    print(b.strip())
d = sh('git diff').stdout
open(D + '/patch.diff', 'w').write(d)
r = sh('bash %s/demo.sh' % D, timeout=300)
if r.returncode == 0:
    print('DEMO PASSES WITH BUG'); sys.exit(1)
print('demo with bug:', (r.stdout + r.stderr).strip().splitlines()[-1:])
json.dump(dict(property=S['property'], needs=S['needs'], what_it_breaks=S['breaks']), open(D + '/meta.json', 'w'), indent=1)
if '-t' in sys.argv:
    pass
# stable tests in the scratch copy
V = '/tmp/vps'
shutil.rmtree(V, ignore_errors=True)
os.makedirs(V)
sh('cp -r /opt/vp/plugin /opt/vp/results.py /opt/vp/env.sh /opt/vp/test.sh /opt/vp/BASELINE.json %s/' % V, cwd='/')
sh("grep -rlE '/repo|/opt/vp' . | xargs sed -i -e 's#/repo#/tmp/seedwt#g' -e 's#/opt/vp/\\(plugin\\|results\\|env\\|BASELINE\\)#/tmp/vps/\\1#g'", cwd=V)
sh("sed -i 's#^export PYTHONPATH=.*#export PYTHONPATH=/tmp/vps/plugin:/tmp/seedwt/src#' test.sh", cwd=V)
r = sh('bash /tmp/vps/test.sh /tmp/vps/o.json')
o = json.load(open('/tmp/vps/o.json'))
st = json.load(open('/opt/vp/BASELINE.json'))['stable']
ok = set(o.get('passed', []))
bad = [t for t in st if t not in ok]
print('tests failing:', bad if bad else 'none')
shutil.rmtree(W)
