"""mutrun.py FILE: each line `Cxx ||| file ||| old ||| new`: run the whole check of Cxx (proofs and refuter) on a copy with the change"""
import sys, os, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
def one(l):
    pid, f, old, new = [x.replace('\\\\n', '\0').replace('\\n', '\n').replace('\0', '\\n') for x in l.rstrip('\n').split(' ||| ')]
    d = tempfile.mkdtemp(prefix='mr.', dir='/tmp'); subprocess.run(['cp', '-a', '/repo/.', d]); os.chmod(d, 0o755)
    p = os.path.join(d, f); s = open(p).read()
    if s.count(old) < 1: shutil.rmtree(d); return '%s NOT FOUND %r' % (pid, old)
    open(p, 'w').write(s.replace(old, new, 1))
    r = subprocess.run(['python3-vt', '/verif/run.py', pid], capture_output=True, text=True, env=dict(os.environ, VP_REPO=d))
    shutil.rmtree(d)
    o = [x for x in r.stdout.splitlines() if x.startswith(('VIOLATION', 'UNDECIDED', 'FAILED'))]
    return '%s %s %s\n    %r -> %r' % ('rc=%d' % r.returncode if r.returncode == 1 else 'MISSED rc=%d' % r.returncode, pid, ' | '.join(x[:110] for x in o[:3]), old[:80], new[:80])
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, [l for l in open(sys.argv[1]) if l.strip()]): print(r, flush=True)
