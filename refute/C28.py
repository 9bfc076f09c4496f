"""C28 on real FTrace objects, with a stand-in for trace-cmd that records how it was called."""
from common import *
import os, tempfile, shutil
RULE = 'random directories with binary, text and raw text traces (the binary ones are converted by a stand-in for trace-cmd), random headers (keys present, missing, repeated, out of order, after the first event); which file was read, how it was converted, what is left behind and the header are compared; non-trivial: all'
STUB = '#!/bin/sh\nprintf "%%s\\n" "$@" > %s/args\nfor x; do :; done\ncat "$x"\n'
def header(r):
    L = []
    for _ in range(r.randint(0, 4)):
        k = r.choice(['version', 'cpus', 'version', 'cpus', 'cpu', 'versions', 'CPUS', 'xcpus'])
        L.append((' ' if r.random() < .1 else '') + k + r.choice(['=', ' = ', ' =', '= ', ': ', ' ']) + r.choice(['6', '8', '0', '16', 'x', '', '4 cores']))
    return L
def corpus():
    return [dict(files={'t.dat': [['version = 6', 'cpus=8'], []]}, arg='t.dat'), dict(files={'trace.txt': [['cpus=4', 'cpus=5'], ['version=7']]}, arg=''), dict(files={'trace.txt': [[], []], 'trace.dat': [['version = 6'], []]}, arg=''), dict(files={'trace.raw.txt': [[], []]}, arg=''), dict(files={}, arg=''),
            dict(files={'t.txt': [['version = 6', 'version = 7', 'cpus=2'], ['cpus=9']]}, arg='t.txt'), dict(files={'a.b.txt': [['cpus=3'], []]}, arg='a.b.txt'), dict(files={'t.txt': [['cpus=3'], []], 't.dat': [['cpus=4'], []]}, arg='t.txt', cache=True)]
def gen(r):
    st = r.choice(['trace', 'trace', 't', 'a.b']); F = {}
    for e in ('.dat', '.txt', '.raw.txt'):
        if r.random() < .5: F[st + e] = [header(r), header(r) if r.random() < .3 else []]
    c = sorted(F); return dict(files=F, arg=r.choice(c) if c and r.random() < .6 else '', cache=r.random() < .3)
def want(F, arg):
    stem = os.path.splitext(arg)[0] if arg else 'trace'
    for e in ('.dat', '.txt'):
        if stem + e in F: return stem + e
def meta(H):
    import re
    o = {}
    for l in H:
        m = re.match(r'(version|cpus)\s*=\s*([0-9]+)', l)
        if m and m.group(1) not in o: o[m.group(1)] = m.group(2)
    return o
def check(c):
    import trappy
    d = tempfile.mkdtemp(dir=os.getcwd()); b = os.path.join(d, 'bin'); tmp = os.path.join(d, 'tmp'); w = os.path.join(d, 'w'); old = os.environ['PATH'], tempfile.tempdir
    for x in (b, tmp, w): os.mkdir(x)
    try:
        p = os.path.join(b, 'trace-cmd'); open(p, 'w').write(STUB % d); os.chmod(p, 0o755)
        os.environ['PATH'] = b + ':' + old[0]; tempfile.tempdir = tmp
        for i, (n, (h, late)) in enumerate(sorted(c['files'].items())):
            open(os.path.join(w, n), 'w').write('\n'.join(h + ['c-1 [000] 1.5: ev_a: a=%d' % i] + late + ['c-1 [000] 1.6: ev_a: a=%d' % i]) + '\n')
        exp = want(c['files'], c['arg'])
        for again in ((0, 1) if c.get('cache') else (0,)):
            trappy.FTrace.disable_cache = not c.get('cache')
            try: t = trappy.FTrace(os.path.join(w, c['arg']) if c['arg'] else w, scope='custom', events=['ev_a'], normalize_time=False)
            except Exception as e:
                if exp is not None: return 'opening %r of %r failed: %s %s' % (c['arg'], sorted(c['files']), type(e).__name__, e)
                return None if isinstance(e, (OSError, RuntimeError)) else 'missing trace: %s %s' % (type(e).__name__, e)
            if exp is None: return 'opened %r of %r' % (c['arg'], sorted(c['files']))
            i = sorted(c['files']).index(exp); R = [x['a'] for _, x in rows(t.ev_a.data_frame)]
            if R != [i, i]: return '%r of %r: rows %r are not those of %s' % (c['arg'], sorted(c['files']), R, exp)
            if os.listdir(tmp): return 'left behind: %r' % os.listdir(tmp)
            if set(os.listdir(w)) - {exp + '.cache', '.' + exp + '.cache'} != set(c['files']) - set(): return 'files of the directory changed: %r' % sorted(os.listdir(w))
            if exp.endswith('.dat') and not again:
                a = open(os.path.join(d, 'args')).read().split('\n')[:-1]
                raw = sorted(n for D in (trappy.FTrace.thermal_classes, trappy.FTrace.sched_classes, trappy.FTrace.dynamic_classes) for n, k in D.items() if getattr(k, 'parse_raw', None))
                got = sorted(a[i + 1] for i in range(len(a) - 1) if a[i] == '-r')
                if got != raw: return 'asked for %r unformatted instead of %r' % (got, raw)
                if a[0] != 'report' or os.path.realpath(a[-1]) != os.path.realpath(os.path.join(w, exp)) or '-t' not in a or len(a) != 3 + 2 * len(raw): return 'called with %r' % a
            m = meta(c['files'][exp][0])
            if (t._version, t._cpus) != (m.get('version'), m.get('cpus')): return 'header %r gives version %r, cpus %r%s' % (c['files'][exp], t._version, t._cpus, ' from the cache' if again else '')
    finally:
        os.environ['PATH'], tempfile.tempdir = old; shutil.rmtree(d)
