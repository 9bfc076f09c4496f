"""try hand mutations on a scratch copy: mut.py Cxx < lines of  file ||| old ||| new   (newlines written \\n)"""
import sys, os, shutil, subprocess
pid = sys.argv[1]
for n, line in enumerate(l for l in sys.stdin.read().splitlines() if l.strip()):
    f, old, new = [x.replace('\\\\n', '\0').replace('\\n', '\n').replace('\0', '\\n') for x in line.split(' ||| ')]
    d = '/tmp/mut_%d_%d' % (os.getpid(), n); shutil.copytree('/repo/trappy', d + '/trappy')
    p = os.path.join(d, f); s = open(p).read()
    assert s.count(old) == 1, (s.count(old), line)
    open(p, 'w').write(s.replace(old, new))
    r = subprocess.run([sys.executable, '/verif/tools/dbg.py', pid] + sys.argv[2:], env=dict(os.environ, REPO=d), capture_output=True, text=True)
    bad = [l.strip()[4:110] for l in r.stdout.splitlines() if l.startswith('   BAD')]; err = [l.strip()[:150] for l in r.stdout.splitlines() if 'ERROR' in l] + r.stderr.splitlines()[-1:]
    print('CAUGHT' if bad else 'MISSED', repr(new)[:70], bad[:3], err[:2], flush=True)
    shutil.rmtree(d)
