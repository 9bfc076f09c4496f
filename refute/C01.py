"""C01 on real FTrace objects."""
from common import *
RULE = 'random traces (0..14 lines: event lines of requested and unrequested events, fallback events, lines without the format, keywords in task names and payloads, several keywords per line); the rows of all tables are matched against the lines; non-trivial: at least one event line'
EVS = ['ev_a', 'ev_b', 'sched_x', 'longer_event']
def corpus():
    R = lambda **k: dict(dict(comm='t', pid=3, cpu=1, time='1.5', ev='ev_a', data='a=1'), **k)
    return [dict(recs=[R(), 'junk', R(time='1.6', ev='ev_b'), R(time='1.7', ev='zzz')], events=['ev_a', 'ev_b'], fb=False),
            dict(recs=['x', R(ev='fb_word', data='hello'), R(time='2.0', ev='fb_word', data='ev_a: a=2')], events=['ev_a'], fb=True),
            dict(recs=[R(ev='other'), R(time='1.6'), R(time='1.6')], events=['ev_a'], fb=False), dict(recs=['a', 'b'], events=['ev_a'], fb=False)]
def gen(r):
    n = r.randint(0, 14); ts = ascending(r, n); recs = []
    evs = r.sample(EVS, r.randint(1, 4)); fb = r.random() < .6
    for i in range(n):
        k = r.random()
        if k < .2: recs.append(r.choice(JUNK)); continue
        ev = r.choice(EVS + ['other', 'fb_word', 'fb_word', 'fc_word']); data = kvpayload(r)
        if k > .8: data += ' m=%s: z=1' % r.choice(EVS + ['fb_word'])
        x = rec(r, ev, ts[i], data)
        if ev in ('fb_word', 'fc_word') and r.random() < .4: x['data'] = '%s: a=1' % r.choice(EVS)
        if k > .9: x['comm'] = r.choice(EVS + ['fb_word', 'other']) + ':'
        recs.append(x)
    return dict(recs=recs, events=evs, fb=fb, nl=r.random() < .9, rev=r.random() < .5)
_reg = []
def fbs():
    import trappy
    if not _reg:
        for w in ('fb_word', 'fc_word'):
            def gdd(self, s): return {'string': s}
            def ini(self): trappy.base.Base.__init__(self, fallback=True)
            _reg.append(type(str('Fb' + w), (trappy.base.Base,), dict(unique_word=w + ':', name=w, generate_data_dict=gdd, __init__=ini)))
    return _reg
def check(case):
    import trappy
    recs = case['recs']; kw = case['events']
    if case['fb']:
        for c in fbs(): trappy.register_ftrace_parser(c)
    p = put('\n'.join(render(x) for x in recs) + ('\n' if case.get('nl', True) else ''))
    evs = list(kw) + (['fb_word', 'fc_word'] if case['fb'] else [])
    if case.get('rev'): evs.reverse()
    try: t = ftrace(p, scope='custom', events=evs, normalize_time=False)
    finally:
        if case['fb']:
            for c in fbs(): trappy.unregister_ftrace_parser(c)
        rm(p)
    names = list(kw) + (['fb_word', 'fc_word'] if case['fb'] else [])
    if sorted(t.class_definitions) != sorted(names): return 'events %r' % sorted(t.class_definitions)
    got = {}
    for n in names:
        for _, d in rows(getattr(t, n).data_frame):
            if d['__line'] in got: return 'line %r recorded twice (%s and %s)' % (d['__line'], got[d['__line']], n)
            got[d['__line']] = n
    if recs and recs[-1] == '' and not case.get('nl', True): recs = recs[:-1]      # no line at all
    sec = section(recs)
    if not any(not isinstance(x, str) for x in recs): sec = []
    if t.lines != len(sec): return 'lines is %r, the section has %d' % (t.lines, len(sec))
    for i, x in enumerate(sec):
        s = render(x)
        cand = [] if isinstance(x, str) else [e for e in kw if e + ':' in s]
        if not cand and not isinstance(x, str) and case['fb']: cand = [e for e in ('fb_word', 'fc_word') if e + ':' in s]
        g = got.pop(i, None)
        if g is None and cand: return 'line %d (%r) is in no table' % (i, s)
        if g is not None and g not in cand: return 'line %d (%r) went to %s, expected %r' % (i, s, g, cand)
    if got: return 'rows without a line: %r' % got
