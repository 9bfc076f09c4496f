"""C02 on real FTrace objects."""
from common import *
RULE = 'random traces of 1..12 event lines over three tables with equal, decreasing, nanosecond and microsecond times; every time in every table is compared bit for bit with the rule of the statement; non-trivial: at least two event lines'
EVS = ['ev_a', 'ev_b', 'other']
def corpus():
    R = lambda t, ev='ev_a': dict(comm='t', pid=3, cpu=1, time=t, ev=ev, data='a=1')
    return [dict(recs=[R('1.5'), R('1.5', 'ev_b'), R('1.5', 'other'), R('1.5'), R('1.2'), R('7.000001', 'other')]),
            dict(recs=[R('500000000'), R('600000000', 'ev_b')]), dict(recs=[R('1500000000'), R('1500000001', 'ev_b'), R('1500000001')]), dict(recs=['x', R('3.1', 'other'), 'y', R('3.1'), R('3.0', 'other')]),
            dict(recs=[R('9007199254.740993'), R('9007199254.740993'), R('9007199254.740994')])]
def gen(r):
    n = r.randint(1, 12); mode = r.random(); asc = ascending
    early = r.random() < .3; ascending_ = lambda r, n: asc(r, n, r.randint(1, 900000) if early else None)
    if mode < .5: ts = ascending_(r, n)
    elif mode < .7: ts = ['%d' % max(1, int(float(x) * 1e9) + r.randint(-2, 2)) for x in ascending_(r, n)]
    elif mode < .85:
        b = r.choice([1.0, 123.456, 99999.999999, 4e7]); ts = [('%.6f' % (b + r.choice([0, 0, 1e-6, 2, -.5]))) for _ in range(n)]
    else: ts = [r.choice([a, '%d' % max(1, round(float(a) * 1e9)), '%.9f' % float(a), '%.1f' % (float(a) + .1)]) for a in ascending_(r, n)]
    return dict(recs=[r.choice(JUNK) if r.random() < .1 else rec(r, r.choice(EVS), t, kvpayload(r)) for t in ts])
def check(case):
    recs = case['recs']
    p = put('\n'.join(render(x) for x in recs) + '\n')
    try: t = ftrace(p, scope='custom', events=['ev_a', 'ev_b'], normalize_time=False)
    finally: rm(p)
    sec = section(recs); ts = times(sec); ev = [x for x in ts if x is not None]
    if not ev: raise Skip()
    want = {i: (x['ev'], u) for i, (x, u) in enumerate(zip(sec, ts)) if u is not None and x['ev'] != 'other'}
    got = {}
    for n in ('ev_a', 'ev_b'):
        for u, d in rows(getattr(t, n).data_frame): got[d['__line']] = (n, u)
    if got != want:
        bad = [k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)][0]
        return 'line %d has %r, expected %r' % (bad, got.get(bad), want.get(bad))
    if t.basetime != ev[0]: return 'basetime %r, first event at %r' % (t.basetime, ev[0])
    if t.endtime != ev[-1]: return 'endtime %r, last event at %r' % (t.endtime, ev[-1])
