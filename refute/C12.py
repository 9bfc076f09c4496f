"""C12 on real FTrace objects."""
import random
from common import *
RULE = 'random traces over four tables (interleaved, some empty, any subset selected in any order, also with windows and normalization); the sequence of callback calls is compared with the rows ordered by line; non-trivial: at least one call'
EVS = ['ev_a', 'ev_b', 'ev_c', 'ev_d']
def corpus():
    R = lambda t, ev, d='a=1': dict(comm='c', pid=4, cpu=2, time=t, ev=ev, data=d)
    return [dict(recs=[R('1.5', 'ev_a'), R('2.5', 'ev_b', 'x=2'), R('2.5', 'ev_a', 'b=w'), R('3.5', 'ev_c'), R('3.5', 'ev_b', 'x=3 y=z')], sel=s, norm=n, win=None) for s in (['ev_a', 'ev_b'], ['ev_b', 'ev_a', 'ev_d'], ['ev_d'], ['ev_c', 'ev_b', 'ev_a'], []) for n in (True, False)] + [dict(recs=[R('1.5', 'ev_a'), R('2.5', 'ev_b', 'x=2'), R('3.5', 'ev_a'), R('4.5', 'ev_c')], sel=['ev_a', 'ev_b', 'ev_c'], norm=True, win=None, perm=p) for p in ('same', 'shift')] + [dict(recs=[R(str(i + 1), ('ev_a', 'ev_b', 'ev_c')[i % 3]) for i in range(8)], sel=['ev_a', 'ev_b', 'ev_c'], norm=True, win=None, lines=30011)]
def gen(r):
    n = r.randint(1, 14)
    return dict(recs=[rec(r, r.choice(EVS[:3]), t, kvpayload(r)) for t in ascending(r, n)], sel=r.sample(EVS, r.randint(1, 4)), norm=r.random() < .5, win=r.choice([None, None, [0.5, 3.0]]), perm=r.choice([None, None, 'same', 'shift', 'rand']), lines=r.choice([1, 1, 1, 7, 30011, 2 ** 31 + 11]), seed=r.randint(0, 999))
def check(c):
    p = put('\n'.join(render(x) for x in c['recs']) + '\n')
    kw = dict(scope='custom', events=EVS, normalize_time=c['norm'])
    if c['win']: kw['window'] = tuple(c['win'])
    try: t = ftrace(p, **kw)
    finally: rm(p)
    # the guarantee is about line order: also with times that do not follow it across tables
    rr = random.Random(c.get('seed', 0)); perm = c.get('perm')
    if perm:
        for i, n in enumerate(EVS):
            df = getattr(t, n).data_frame
            if len(df) == 0: continue
            df = df.copy(); ix = list(df.index)
            df.index = [1.0] * len(ix) if perm == 'same' else [x - 100.0 * i for x in ix] if perm == 'shift' else sorted(rr.uniform(0, 5) for _ in ix)
            df.index.name = 'Time'; getattr(t, n).data_frame = df
    if c.get('lines', 1) > 1:   # long traces: only the order of the line numbers matters
        for n in EVS:
            df = getattr(t, n).data_frame
            if len(df): getattr(t, n).data_frame = df.assign(__line=df['__line'] * c['lines'])
    want = []
    for n in c['sel']:
        for u, d in rows(getattr(t, n).data_frame): want.append((d['__line'], n, dict(d, Index=u)))
    want.sort(key=lambda x: x[0])
    got = []
    def cb(n): return lambda row: got.append((n, {k: v for k, v in row.items()}))
    t.apply_callbacks({n: cb(n) for n in c['sel']})
    if len(got) != len(want): return '%d calls, expected %d' % (len(got), len(want))
    for i, ((n, d), (l, m, e)) in enumerate(zip(got, want)):
        if n != m: return 'call %d is for %s, expected %s (line %d)' % (i, n, m, l)
        if set(d) != set(getattr(t, n).data_frame.columns) | {'Index'}: return 'call %d has the columns %r' % (i, sorted(d))
        if not samerow({k: v for k, v in d.items() if not isnan(v) and v is not None}, e): return 'call %d got %r, expected %r' % (i, d, e)
