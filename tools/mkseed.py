#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'what it breaks' < demo.py : takes the uncommitted change of /repo (a scratch worktree
given by SEED_REPO) as patch; confirms build, tests, demo with and without; undoes the change."""
import json, os, shutil, subprocess, sys
sid, prop, needs, what = sys.argv[1:5]
repo = '/repo'
here = '/verif/seeded/' + sid
demo = sys.stdin.read()
diff = subprocess.run(['git', '-C', repo, 'diff'], capture_output=True, text=True).stdout
assert diff, 'no change in /repo'
os.makedirs(here, exist_ok=True)
open(here + '/patch.diff', 'w').write(diff)
open(here + '/demo.py', 'w').write(demo)
shutil.copy('/verif/tools/seed_common.py', here + '/seed_common.py')
open(here + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=4\n'
                                  'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(here + '/meta.json', 'w'), indent=1)
def run(cmd): 
    r = subprocess.run(cmd, cwd=repo, capture_output=True, text=True)
    return r
ok = True
b = run(['bash', '/opt/vp/build.sh']); print('build', b.returncode)
run(['bash', '/opt/vp/test.sh', '/tmp/o.json'])
r = json.load(open('/tmp/o.json'))
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
failed = base - set(r.get('passed', []))
print('stable tests failing:', sorted(failed))
d1 = run(['bash', here + '/demo.sh']); print('demo with patch', d1.returncode, d1.stdout[-300:], d1.stderr[-300:] if 'DEMO FAILED' not in d1.stdout else '')
run(['git', 'checkout', '--', '.'])
d0 = run(['bash', here + '/demo.sh']); print('demo without', d0.returncode, d0.stdout[-300:], d0.stderr[-300:])
good = b.returncode == 0 and not failed and d1.returncode != 0 and d0.returncode == 0
if good:
    run(['git', 'apply', here + '/patch.diff'])
    c = subprocess.run(['/verif/check', prop], cwd='/verif', capture_output=True, text=True)
    print('CHECK', prop, c.returncode, '\n'.join(l[:250] for l in c.stdout.splitlines()[-6:]))
    run(['git', 'checkout', '--', '.'])
print('SEED', sid, 'GOOD' if good else 'BAD')
if not good and '--keep' not in sys.argv:
    shutil.rmtree(here)
