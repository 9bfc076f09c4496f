"""C06 on real FTrace objects."""
from common import *
RULE = 'random traces over three tables whose lines print different subsets of the fields, in any order, some overriding a metadata field; every table is compared row by row, column by column; non-trivial: at least two rows in a table'
def corpus():
    R = lambda t, ev, data, **k: dict(dict(comm='c' + t[0], pid=int(t[0]), cpu=2, time=t, ev=ev, data=data), **k)
    return [dict(recs=[R('1.5', 'ev_a', 'a=1'), R('2.5', 'ev_b', 'a=2'), R('3.5', 'ev_a', 'b=x y'), R('3.5', 'ev_a', 'b=z a=5'), R('3.5', 'ev_b', 'c=1')]), dict(recs=[R('1.5', 'ev_a', 'pid=9 __pid=77 __comm=zz __cpu=5'), R('1.6', 'ev_a', 'pid=8')]),
            dict(recs=[R('5.5', 'ev_a', 'a=1'), R('4.5', 'ev_a', 'a=2'), R('4.5', 'ev_b', 'a=3')])]
def gen(r):
    n = r.randint(1, 12); ts = ascending(r, n)
    recs = []
    for t in ts:
        d = kvpayload(r, keys=r.choice(['ab', 'abcd', 'cd', 'd']))
        if r.random() < .1: d += ' ' + r.choice(['__pid=4', '__comm=other', '__cpu=9'])
        x = rec(r, r.choice(['ev_a', 'ev_b', 'ev_c', 'none']), t, d); x['comm'] = r.choice(COMMS); x['pid'] = r.randint(0, 9999)
        recs.append(x if r.random() < .92 else r.choice(JUNK))
    return dict(recs=recs)
def check(c):
    recs = c['recs']
    p = put('\n'.join(render(x) for x in recs) + '\n')
    try: t = ftrace(p, scope='custom', events=['ev_a', 'ev_b', 'ev_c'], normalize_time=False)
    finally: rm(p)
    sec = section(recs); ts = times(sec)
    for n in ('ev_a', 'ev_b', 'ev_c'):
        want = []
        for i, (x, u) in enumerate(zip(sec, ts)):
            if u is None or x['ev'] != n: continue
            d = {'__comm': x['comm'], '__pid': x['pid'], '__cpu': x['cpu'], '__line': i}; d.update(decode(x['data']))
            want.append((u, d))
        o = getattr(t, n)
        m = diffrows(rows(o.data_frame), want, n)
        if m: return m
        for b in ('time_array', 'line_array', 'comm_array', 'pid_array', 'cpu_array', 'data_array'):
            if len(getattr(o, b)): return '%s.%s has %d leftovers' % (n, b, len(getattr(o, b)))
