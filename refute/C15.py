"""C15 on the real expression parser."""
from common import *
RULE = 'random event tables (with and without a pivot), windows (bounds on, between and outside the events, None) and filters (single values, lists, on present and missing columns); the data an accessor and an inspection return is compared with the rows selected by the statement, and the tables of the trace are compared before and after; non-trivial: at least one row'
KNOWN = [('same-column-name', dict(kind='two', t=[1, 2], a=[1, 2], b=[10, 20]))]
def corpus():
    base = dict(t=[1, 2, 3, 4, 5], x=[5, 6, 7, 8, 9], cpu=[0, 1, 0, 1, 2], s=['p', 'q', 'p', 'p', 'q'])
    out = []
    for win in ([0, None], [2, 4], [2, 2], [3, None], [1.5, 3.5], [9, None], [0, 3], [0, 0]):
        for fl in (None, {'cpu': [0, 2]}, {'cpu': 1}, {'s': 'p', 'cpu': [0, 1]}, {'nocol': 5}, {'x': [5, 9], 'nocol': 1}, {'nocol': 1, 'cpu': [0]}, {'cpu': []}, {'s': ['p', 'q']}):
            for pv in (None, 'cpu'): out.append(dict(base, win=win, filters=fl, pivot=pv))
    for fl in ({'g': 0}, {'g': [0, 1]}, {'g': '0'}, {'cpu': ['1', '0']}, {'cpu': ['1', 1]}, {'cpu': 1.0}, {'s': ['p', 0]}, {'g': [2]}, {'cpu': [-1]}):
        for win in ([0, None], [None, 3], [-3, 2], [None, None]):
            out.append(dict(base, g=[0, None, 1, None, 0], win=win, filters=fl, pivot=None)); out.append(dict(base, t=[-2.5, -1, 0, 1, 1], g=[None, None, 1, 0, 0], win=win, filters=fl, pivot=None))
    return out
def gen(r):
    n = r.randint(1, 10); off = r.choice([0, 0, -30]); t = sorted(r.sample(range(1, 60), n) if r.random() < .8 else [r.randint(1, 9) for _ in range(n)]); t = [(x + off) / 4. for x in t]
    fl = {}
    for k in r.sample(['cpu', 's', 'x', 'nocol', 'g'], 5):
        if r.random() < .35:
            v = {'cpu': [r.randint(0, 3) for _ in range(r.randint(0, 3))], 's': r.sample(['p', 'q', 'r'], r.randint(1, 2)), 'x': [r.randint(0, 9) for _ in range(4)], 'nocol': [1], 'g': r.sample([0, 1, 2, '0', 'nan'], 2)}[k]
            if r.random() < .15: v = v + r.choice([['1'], ['0', 'x'], [1.0], [-1]])
            fl[k] = v[0] if v and r.random() < .4 else v
    e = lambda: r.choice([r.choice(t), r.randint(0, 64) / 4., r.choice(t) + .1])
    return dict(t=t, x=[r.randint(0, 9) for _ in t], cpu=[r.randint(0, 2) for _ in t], s=[r.choice('pq') for _ in t], g=[r.choice([0, 1, 2, None, None]) for _ in t], win=[r.choice([0, e(), e(), None]), r.choice([None, e(), e()])], filters=fl or None, pivot=r.choice([None, None, 'cpu']))
def check(c):
    import trappy, pandas as pd
    from trappy.stats.grammar import Parser
    if c.get('kind') == 'two':
        t = trappy.BareTrace()
        t.add_parsed_event('ea', pd.DataFrame({'v': c['a']}, index=[float(x) for x in c['t']])); t.add_parsed_event('eb', pd.DataFrame({'v': c['b']}, index=[float(x) for x in c['t']]))
        r = Parser(t).solve('ea:v + eb:v')
        got = [float(x) for x in (r.iloc[:, 0] if hasattr(r, 'columns') else r)]
        want = [float(a + b) for a, b in zip(c['a'], c['b'])]
        return None if got == want else 'ea:v + eb:v is %r, expected %r' % (got, want)
    COLS = [k for k in ('x', 'cpu', 's', 'g') if k in c]
    df = pd.DataFrame({k: [float('nan') if x is None else x for x in c[k]] for k in COLS}, index=pd.Index(c['t'], name='Time', dtype='float64'))
    t = trappy.BareTrace()
    other = pd.DataFrame({'y': [1, 2]}, index=[0.5, 1.5])
    t.add_parsed_event('evt', df, pivot=c['pivot']); t.add_parsed_event('oth', other)
    if c['pivot']: t.class_definitions['evt'].pivot = c['pivot']
    copy, ocopy = df.copy(deep=True), other.copy(deep=True)
    w, fl = c['win'], c['filters'] or {}
    keep = []
    for i, u in enumerate(c['t']):
        if not ((w[0] is None or w[0] <= u) and (w[1] is None or u <= w[1])): continue
        if all(k not in COLS or c[k][i] in (v if isinstance(v, list) else [v]) for k, v in fl.items()): keep.append(i)
    p = Parser(t, window=tuple(w), filters=c['filters'])
    info = p.inspect('evt:x')
    if info['length'] != len(keep): return 'inspect says %d rows, expected %d' % (info['length'], len(keep))
    if info['column_present'] is not True and not info['column_present'] or p.inspect('evt:zz')['column_present']: return 'inspect: column_present'
    if c['pivot']:
        if info['pivot'] != 'cpu' or list(info['pivot_values']) != sorted({c['cpu'][i] for i in keep}): return 'inspect: pivot values %r' % (info['pivot_values'],)
    elif info['pivot'] is not None: return 'inspect: pivot %r' % info['pivot']
    if len(set(c['t'])) < len(c['t']): r = None   # equal times are resolved before expressions are evaluated (C13)
    else:
     try: r = p.solve('evt:x')
     except ValueError as e:
         if keep: return 'ValueError: %s' % e
         r = None
    if r is not None and not keep: return 'data from no rows: %r' % r
    if r is not None:
        got = [float(x) for x in r.index]
        if got != [float(c['t'][i]) for i in keep]: return 'rows at %r, expected %r' % (got, [c['t'][i] for i in keep])
        if not c['pivot']:
            v = r.iloc[:, 0] if hasattr(r, 'columns') else r
            if [float(x) for x in v] != [float(c['x'][i]) for i in keep]: return 'values %r, expected %r' % (list(v), [c['x'][i] for i in keep])
        else:
            if [x for x in r.columns] != sorted({c['cpu'][i] for i in keep}): return 'pivot columns %r' % list(r.columns)
            for j, i in enumerate(keep):
                if float(r[c['cpu'][i]].iloc[j]) != float(c['x'][i]): return 'value for cpu %r at %r is %r, expected %r' % (c['cpu'][i], c['t'][i], r[c['cpu'][i]].iloc[j], c['x'][i])
    if not df.equals(copy) or not t.evt.data_frame.equals(copy) or not t.oth.data_frame.equals(ocopy) or list(t.evt.data_frame.index) != list(copy.index): return 'the table of the trace was modified'
