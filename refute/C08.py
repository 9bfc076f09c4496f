"""C08 on real FTrace objects."""
from common import *
RULE = 'random traces over three tables opened with and without normalization (parsed, cached, with windows); all times, cells, orders and the duration are compared; non-trivial: at least two events'
def corpus():
    R = lambda t, ev: dict(comm='c', pid=4, cpu=2, time=t, ev=ev, data='a=1 b=x%s' % t[0])
    return [dict(recs=[R('10.5', 'none'), R('11.25', 'ev_a'), R('12.5', 'ev_b'), R('12.5', 'ev_a')], cache=False, win=None), dict(recs=[R('10.5', 'ev_b'), R('11.25', 'ev_a')], cache=True, win=[0.25, None]), dict(recs=[R('0.000001', 'ev_a'), R('0.5', 'ev_a')], cache=True, win=None)]
def gen(r):
    n = r.randint(1, 10)
    return dict(recs=[rec(r, r.choice(['ev_a', 'ev_b', 'ev_c', 'none']), t, 'a=%d b=w%d' % (r.randint(0, 99), r.randint(0, 9)), comm=r.choice(['ab', 'cd e', 'kw/1'])) for t in ascending(r, n)], cache=r.random() < .4, win=r.choice([None, None, [0.5, 2.0], [0.000001, None]]))
def check(c):
    p = put('\n'.join(render(x) for x in c['recs']) + '\n')
    kw = dict(scope='custom', events=['ev_a', 'ev_b', 'ev_c'])
    if c['win']: kw['window'] = tuple(c['win'])
    try:
        a = [ftrace(p, cache=c['cache'], normalize_time=False, **kw)]; b = [ftrace(p, cache=c['cache'], normalize_time=True, **kw)]
        if c['cache']: a.append(ftrace(p, cache=True, normalize_time=False, **kw)); b.append(ftrace(p, cache=True, normalize_time=True, **kw))
    finally: rm(p)
    ts = [x for x in times(section(c['recs'])) if x is not None]; base = ts[0]
    for raw, nor in zip(a, b):
        if raw.basetime != base or nor.basetime != base: return 'base times %r and %r, first event at %r' % (raw.basetime, nor.basetime, base)
        for n in ('ev_a', 'ev_b', 'ev_c'):
            R = rows(getattr(raw, n).data_frame)
            if any(u not in ts for u, _ in R): return '%s: times without normalization are not the printed ones' % n
            m = diffrows(rows(getattr(nor, n).data_frame), [(u - base, d) for u, d in R], n + ' normalized')
            if m: return m
            if list(getattr(raw, n).data_frame.columns) != list(getattr(nor, n).data_frame.columns): return n + ': columns differ'
        d1, d2 = raw.get_duration(), nor.get_duration()
        allt = [u for n in ('ev_a', 'ev_b', 'ev_c') for u, _ in rows(getattr(raw, n).data_frame)]
        want = (max(allt) - min(allt)) if allt else 0
        if abs(d1 - want) > 1e-9 or abs(d2 - want) > 1e-9: return 'duration %r / %r, expected %r' % (d1, d2, want)
