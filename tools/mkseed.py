"""Plant and confirm bugs.   mkseed.py SPEC.py [ID...]
SPEC.py defines SEEDS = {id: dict(property, file, old, new, demo, needs, breaks)}; demo is Python run with cwd at the repository, nonzero exit = broken.
Works in a scratch copy of /repo, keeps only changes that pass the stable tests and whose demo tells them apart."""
import sys, os, subprocess, shutil, json, tempfile, runpy
SPEC = runpy.run_path(sys.argv[1])['SEEDS']
only = sys.argv[2:]
OUT = '/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# run with cwd = the repository, after the build
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"; trap 'rm -rf "$work"' EXIT
export MPLBACKEND=Agg MPLCONFIGDIR="$work" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" DEMO_DIR="$work" PYTHONWARNINGS=ignore
exec_py=/opt/venv/bin/python
cd "$work" && "$exec_py" "$here/demo.py"
'''
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
for sid, s in SPEC.items():
    if only and sid not in only: continue
    w = tempfile.mkdtemp(prefix='seed-'); r = w + '/repo'
    try:
        shutil.copytree('/repo', r, symlinks=True)
        fs = s['file'] if isinstance(s['file'], list) else [s['file']]
        olds = s['old'] if isinstance(s['old'], list) else [s['old']]; news = s['new'] if isinstance(s['new'], list) else [s['new']]
        if len(fs) < len(olds): fs = fs * len(olds)
        ok = True
        for f, o, n in zip(fs, olds, news):
            t = open(r + '/' + f).read()
            if t.count(o) != 1: print(sid, 'OLD TEXT occurs', t.count(o), 'times in', f); ok = False; break
            open(r + '/' + f, 'w').write(t.replace(o, n))
        if not ok: continue
        patch = sh('git -C %s diff' % r).stdout
        d = tempfile.mkdtemp(prefix='seedout-', dir=w)
        open(d + '/patch.diff', 'w').write(patch); open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(s['demo'].strip() + '\n')
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd='/repo'); b = sh('bash %s/demo.sh' % d, cwd=r)
        if a.returncode != 0: print(sid, 'DEMO FAILS ON THE UNCHANGED TREE', (a.stdout + a.stderr)[-600:]); continue
        if b.returncode == 0: print(sid, 'DEMO DOES NOT FAIL WITH THE CHANGE', (b.stdout + b.stderr)[-300:]); continue
        # the stable tests, run in the copy
        sh('cd %s && PYTHONPATH=%s PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s/j.xml tests; /usr/bin/python3 /opt/vp/results.py %s/o.json junit:%s/j.xml' % (r, r, w, w, w))
        passed = set(json.load(open(w + '/o.json'))['passed']); miss = [x for x in stable if x not in passed]
        if miss: print(sid, 'TESTS FAIL', miss[:3]); continue
        shutil.copytree(d, OUT + '/' + sid, dirs_exist_ok=True)
        print(sid, 'kept:', (b.stdout + b.stderr).strip().split('\n')[-1][:150], flush=True)
    finally: shutil.rmtree(w, ignore_errors=True)
