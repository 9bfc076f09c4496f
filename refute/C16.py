"""C16 on the real Trigger."""
from common import *
RULE = 'random event tables, pivot values (present and absent), filters (callables, values, lists, on present and missing columns) and trigger values (constants and column names); the series is compared entry by entry; non-trivial: at least one matching row'
def corpus():
    b = dict(t=[1, 2, 3, 4, 5, 6], p=[0, 1, 0, 1, 0, 0], a=[5, 6, 7, 8, 9, 5], s=['u', 'v', 'u', 'u', 'v', 'v'])
    out = []
    for fl in ([], [['a', 'val', 5]], [['a', 'list', [5, 7]]], [['s', 'val', 'u'], ['a', 'fn', 'gt5']], [['zz', 'val', 3]], [['zz', 'list', [3]], ['s', 'list', ['u', 'v']]], [['a', 'fn', 'odd']], [['a', 'list', []]], [['p', 'val', 1]]):
        for v in (1, -1, 2.5, 'a', 's'):
            for pv in (0, 1, 7): out.append(dict(b, filters=fl, value=v, pv=pv))
    out += [dict(b, p=[0, None, 0, 1, None, 0], filters=[], value=v, pv=pv) for v in (1, 'a') for pv in (0, 1, 1.0)]
    return out
def gen(r):
    n = r.randint(0, 9)
    fl = []
    for k in r.sample(['a', 's', 'p', 'zz'], r.randint(0, 3)):
        if k == 'a': fl.append([k] + r.choice([['val', r.randint(0, 5)], ['list', [r.randint(0, 5) for _ in range(r.randint(0, 4))]], ['fn', r.choice(['gt2', 'odd', 'yes', 'no'])]]))
        elif k == 's': fl.append([k] + r.choice([['val', r.choice('uvw')], ['list', r.sample('uvw', r.randint(1, 2))], ['fn', 'isu']]))
        elif k == 'p': fl.append([k] + r.choice([['val', r.randint(0, 2)], ['list', [0, 1]]]))
        else: fl.append([k] + r.choice([['val', 3], ['list', [1, 2]]]))
    return dict(t=sorted(r.sample(range(1, 99), n)), p=[r.randint(0, 2) if r.random() < .9 or not fl else None for _ in range(n)], a=[r.randint(0, 5) for _ in range(n)], s=[r.choice('uv') for _ in range(n)], filters=fl, value=r.choice([1, 0, -1, 2.5, 'a', 's', 'p']), pv=r.randint(0, 3))
FN = dict(gt5=lambda v: v > 5, gt2=lambda v: v > 2, odd=lambda v: bool(v % 2), yes=lambda v: True, no=lambda v: False, isu=lambda v: v == 'u')
def check(c):
    import trappy, pandas as pd
    from trappy.stats.Trigger import Trigger
    df = pd.DataFrame({'p': c['p'], 'a': c['a'], 's': c['s']}, index=pd.Index([x / 4. for x in c['t']], name='Time', dtype='float64'))
    t = trappy.BareTrace(); t.add_parsed_event('evt', df); copy = df.copy(deep=True)
    cols = dict(p=c['p'], a=c['a'], s=c['s'])
    fd = {k: FN[v] if kind == 'fn' else v for k, kind, v in c['filters']}
    want = []
    for i in range(len(c['t'])):
        if c['p'][i] != c['pv']: continue
        ok = True
        for k, kind, v in c['filters']:
            if k not in cols: continue
            x = cols[k][i]
            ok = ok and (FN[v](x) if kind == 'fn' else x in v if kind == 'list' else x == v)
        if ok: want.append((c['t'][i] / 4., cols[c['value']][i] if isinstance(c['value'], str) else c['value']))
    s = Trigger(t, t.class_definitions['evt'], fd, c['value'], 'p').generate(c['pv'])
    if not isinstance(s, pd.Series): return 'not a series: %r' % s
    got = [(float(x), s.iloc[i]) for i, x in enumerate(s.index)]
    if got != want: return 'entries %r, expected %r' % (got, want)
    if not t.evt.data_frame.equals(copy): return 'the table was modified'
