"""C10 on real FTrace objects: the process is interrupted, or the file system fails, at a chosen point while the cache is written."""
from common import *
import sys, builtins, shutil
RULE = 'random traces and event subsets (also extending an existing cache, or replacing the cache of another trace); the cache write is interrupted at the k-th library call made while it runs (by an exception, or by ending the process at once), or between two chunks of a file being written, or the k-th file-system operation on the cache fails with an OS error; afterwards the trace is opened again, twice, with random subsets and compared with a parse without a cache; non-trivial: the interruption happened'
class Crash(BaseException): pass
EVS = ['ev_a', 'ev_b', 'ev_c']
def corpus():
    t1 = 'cpus=4\nc-1 [000] 1.5: ev_a: a=1 b=wx\nd-2 [001] 1.5: ev_b: a=2\nc-1 [002] 2.25: ev_a: a=3 b=wy z\nc-1 [002] 2.5: ev_a: a=4 b=wq\ne-9 [003] 3.5: none: a=4\n'
    out = []
    for mode in ('partial', 'oserror'):
        for k in range(0, 9):
            for pre in (None, ['ev_b'], 'other'): out.append(dict(text=t1, pre=pre, events=['ev_a', 'ev_b'], mode=mode, k=k, keep=3, later=[['ev_a', 'ev_b'], ['ev_b', 'ev_a', 'ev_c']]))
    for mode in ('exit', 'raise'):
        for k in range(0, 60, 5): out.append(dict(text=t1, pre=None if k % 10 else ['ev_b'], events=['ev_a', 'ev_b'], mode=mode, k=k * k // 4, keep=3, later=[['ev_a'], ['ev_b', 'ev_a']]))
    return out
def gen(r):
    L = ['version = 6'] if r.random() < .5 else []
    for t in ascending(r, r.randint(1, 9)):
        L.append(render(rec(r, r.choice(EVS + ['none']), t, r.choice(['a=%d' % r.randint(0, 9999), 'a=%d b=w%d' % (r.randint(-9, 99), r.randint(0, 9)), 'b=w%d x' % r.randint(0, 9)]), comm=r.choice(['ab', 'cd e', 'kw/1']))))
    mode = r.choice(['raise', 'exit', 'partial', 'partial', 'oserror'])
    return dict(text='\n'.join(L) + '\n', pre=r.choice([None, None, r.sample(EVS, r.randint(1, 2)), 'other']), events=r.sample(EVS, r.randint(1, 3)), mode=mode,
                k=r.randint(0, 8) if mode in ('partial', 'oserror') else int(r.random() ** 2 * 1500), keep=r.randint(0, 60), later=[r.sample(EVS, r.randint(1, 3)) for _ in range(2)])
def snap(t): return {n: rows(getattr(t, n).data_frame) for n in t.class_definitions}, t.basetime, t.endtime, dict(t.metadata)
def interrupted_open(p, cd, kw, mode, k, keep):
    """open with the cache; returns (trace or None, whether the fault happened, warnings)"""
    import trappy
    from trappy.ftrace import GenericFTrace
    import tempfile
    cnt = [0]; hit = [False]
    real_open, real_io_open = builtins.open, io.open
    class W(object):
        """text file whose k-th write is cut short"""
        def __init__(self, f): self.f = f
        def write(self, s):
            cnt[0] += 1
            if cnt[0] - 1 == k:
                hit[0] = True
                self.f.write(s[:min(keep, max(0, len(s) - 1))]); self.f.flush()
                raise Crash('write cut short')
            return self.f.write(s)
        def __enter__(self): return self
        def __exit__(self, *a): self.f.close()
        def __iter__(self): return iter(self.f)
        def __getattr__(self, n): return getattr(self.f, n)
    def incache(x):
        try: return os.path.abspath(x).startswith(cd)
        except TypeError: return False
    def fake_open(f, m='r', *a, **kk):
        w = incache(f) and any(ch in m for ch in 'wax+')
        if w and mode == 'oserror': tick()
        o = real_open(f, m, *a, **kk)
        return W(o) if w and mode == 'partial' and 'b' not in m else o
    def tick():
        cnt[0] += 1
        if cnt[0] - 1 == k: hit[0] = True; raise OSError(28, 'No space left on device')
    saved = {n: getattr(os, n) for n in ('mkdir', 'replace', 'rename')}
    def wrap(n):
        def f(*a, **kk):
            if a and incache(a[-1]): tick()
            return saved[n](*a, **kk)
        return f
    orig_update = GenericFTrace._update_cache
    def prof(frame, event, arg):
        if event in ('c_call', 'call'):
            cnt[0] += 1
            if cnt[0] - 1 == k:
                hit[0] = True; sys.setprofile(None)
                if mode == 'exit': os._exit(77)
                raise Crash('interrupted')
    def update(self):
        if mode in ('raise', 'exit'):
            sys.setprofile(prof)
            try: return orig_update(self)
            finally: sys.setprofile(None)
        builtins.open = fake_open
        if mode == 'oserror':
            for n in saved: setattr(os, n, wrap(n))
        try: return orig_update(self)
        finally:
            builtins.open = real_open
            for n in saved: setattr(os, n, saved[n])
    GenericFTrace._update_cache = update
    try:
        if mode == 'exit':
            pid = os.fork()
            if pid == 0:
                try: ftrace(p, cache=True, **kw)
                except BaseException: pass
                os._exit(0)
            return None, os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 77, []
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try: t = ftrace(p, cache=True, **kw)
            except Crash: return None, True, ws
        return t, hit[0], ws
    finally: GenericFTrace._update_cache = orig_update
def check(c):
    import trappy
    p = put(c['text']); cd = os.path.join(os.path.dirname(p), '.trace.txt.cache')
    try:
        if c['pre'] == 'other':
            real = open(p).read(); open(p, 'w').write('c-1 [000] 1.5: ev_a: a=77\nc-1 [000] 1.5: ev_b: a=78\n')
            ftrace(p, cache=True, scope='custom', events=['ev_a', 'ev_b']); open(p, 'w').write(real)
        elif c['pre']: ftrace(p, cache=True, scope='custom', events=list(c['pre']))
        kw = dict(scope='custom', events=list(c['events']), normalize_time=False)
        fresh = snap(ftrace(p, **kw))
        t, hit, ws = interrupted_open(p, cd, kw, c['mode'], c['k'], c['keep'])
        if not hit: raise Skip()
        if c['mode'] == 'oserror':
            if t is None: return 'a failing cache write lost the parsed data'
            if snap(t) != fresh and any(diffrows(snap(t)[0][n], fresh[0][n], n) for n in fresh[0]): return 'tables differ after a failing cache write'
            if not any('ache' in str(w.message) for w in ws): return 'no warning for a failing cache write'
        for ev in [c['events']] + c['later']:
            kw = dict(scope='custom', events=list(ev), normalize_time=False)
            want = snap(ftrace(p, **kw)); got = snap(ftrace(p, cache=True, **kw))
            for n in want[0]:
                m = diffrows(got[0][n], want[0][n], 'table %s after the interruption (%s at %d)' % (n, c['mode'], c['k']))
                if m: return m
            if got[1:] != want[1:]: return 'base time, end time or metadata differ after the interruption: %r, expected %r' % (got[1:], want[1:])
    finally: rm(p)
