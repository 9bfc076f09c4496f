"""C07 on real FTrace objects, parsed and cached."""
from common import *
RULE = 'random traces (times are multiples of 1/8 so that window arithmetic is exact) opened with random relative and absolute windows (bounds on, between and beyond the events, None, 0), parsed and from the cache, normalized or not; non-trivial: at least one event'
def T(recs): return recs
def corpus():
    ts = [10, 11, 12, 13, 14]; out = []
    for w in ([0, None], [1, 3], [0, 2], [2, None], [1, 2], [0, 0], [5, 6], [0, 100]):
        for a in ([0, None], [11, 13], [0, 12], [12, None], [13, 13], [0, 0], [0, 5], [12, 200]):
            out.append(dict(ts=[8 * t for t in ts], ev=[0, 1, 0, 2, 1], win=[None if x is None else 8 * x for x in w], awin=[None if x is None else 8 * x for x in a], norm=True, cache=len(out) % 2 == 0))
    return out
def gen(r):
    n = r.randint(1, 10); t = r.randint(1, 400); ts = []
    for _ in range(n): ts.append(t); t += r.choice([1, 2, 4, 8, 20])
    def b(lo, hi): return r.choice([lo + r.randint(0, hi - lo + 4), r.choice(ts) - (ts[0] if lo == 0 else 0)])
    w = [r.choice([0, b(0, ts[-1] - ts[0])]), r.choice([None, b(0, ts[-1] - ts[0])])]
    a = [r.choice([0, b(ts[0], ts[-1])]), r.choice([None, 0, b(ts[0], ts[-1]), b(ts[0], ts[-1])])]
    return dict(ts=ts, ev=[r.randint(0, 2) for _ in ts], win=w, awin=a, norm=r.random() < .5, cache=r.random() < .4)
def check(c):
    names = ['ev_a', 'ev_b', 'none']
    ts = [x / 8. for x in c['ts']]
    txt = '\n'.join(render(dict(comm='w%d' % i, pid=i, cpu=1, time='%.3f' % t, ev=names[e], data='a=%d b=w%d' % (i, i))) for i, (t, e) in enumerate(zip(ts, c['ev']))) + '\n'
    f = lambda p: [None if x is None else x / 8. for x in p]
    win, awin = f(c['win']), f(c['awin'])
    p = put(txt)
    try:
        kw = dict(scope='custom', events=['ev_a', 'ev_b'], normalize_time=c['norm'])
        full = ftrace(p, **kw)
        opens = [ftrace(p, window=tuple(win), abs_window=tuple(awin), **kw)]
        if c['cache']:
            opens.append(ftrace(p, cache=True, window=tuple(win), abs_window=tuple(awin), **kw))
            opens.append(ftrace(p, cache=True, window=tuple(win), abs_window=tuple(awin), **kw))
    finally: rm(p)
    b = ts[0]; off = b if c['norm'] else 0
    for k, t in enumerate(opens):
        for i, n in enumerate(names[:2]):
            ref = rows(getattr(full, n).data_frame)
            want = [(u, d) for u, d in ref if win[0] + b <= u + off and awin[0] <= u + off and (win[1] is None or u + off <= win[1] + b) and (awin[1] is None or u + off <= awin[1])]
            m = diffrows(rows(getattr(t, n).data_frame), want, '%s (%s, window %r abs_window %r)' % (n, ['parsed', 'first cached open', 'from the cache'][k], win, awin))
            if m: return m
        if len([u for u, e in zip(ts, c['ev']) if e == 0]) != len(full.ev_a.data_frame): return 'full table misses rows'
