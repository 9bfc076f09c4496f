"""C18 on the real Constraint and ConstraintManager."""
from common import *
RULE = 'random data frames (1..3, some without the pivot or filtered columns), columns, pivots, filters and both pairings; the resulting series, the offered pivot values and the rejection of incompatible lengths are compared with the statement; non-trivial: at least one selected row'
def corpus():
    d = [dict(cpu=[0, 1, 0, 1], load=[1, 2, 2, 3], freq=[2, 3, 3, 4]), dict(cpu=[1, 0, 1, 2], load=[2, 3, 2, 1], freq=[1, 2, 2, 1])]
    out = []
    for piv in (None, 'cpu', 'nocol'):
        for fl in ({}, {'cpu': [0]}, {'freq': [2, 3]}, {'cpu': [1, 7], 'freq': [1, 3]}, {'zz': [1]}, {'load': []}, {'cpu': [0, 2], 'load': [2]}):
            for cols in (['load'], ['load', 'freq'], ['load', 'freq', 'cpu']):
                for k in (1, 2):
                    for z in (True, False): out.append(dict(d=d[:k], cols=cols, piv=piv, fl=fl, zip=z))
    out += [dict(d=[dict(cpu=['f', '0f', '10'], load=[1, 2, 3], freq=[1, 1, 1])], cols=['load'], piv='cpu', fl={}, zip=True), dict(d=[dict(cpu=['b', 'x', 'a'], load=[1, 2, 3], freq=[1, 1, 1])], cols=['load'], piv='cpu', fl={}, zip=True), dict(d=[dict(cpu=[10, 9, 100], load=[1, 2, 3], freq=[1, 1, 1])], cols=['load'], piv='cpu', fl={}, zip=True), dict(d=[dict(cpu=['10', '9', '100'], load=[1, 2, 3], freq=[1, 1, 1])], cols=['load'], piv='cpu', fl={}, zip=True)]
    out += [dict(d=[dict(cpu=[0, 1, 0, 1], load=[None, 2, 3, None], freq=[1, 1, 2, 1])], cols=['load'], piv=p, fl=f, zip=True) for p in (None, 'cpu') for f in ({}, {'freq': [1]})]
    return out
def gen(r):
    ds = []
    kind = r.choice(['int', 'int', 'hex', 'dec', 'word', 'float', 'float'])
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        n = r.randint(1, 7)
        x = dict(load=[None if r.random() < .12 else r.randint(0, 4) for _ in range(n)], freq=[r.randint(0, 3) for _ in range(n)])
        if r.random() < .9: x['cpu'] = [{'float': r.choice([0., 1., 2., 10.]), 'int': r.choice([0, 1, 2, 10]), 'hex': r.choice(['f', '0f', '10', '1']), 'dec': r.choice(['1', '9', '10']), 'word': r.choice(['a', 'task-1', 'zz'])}[kind] for _ in range(n)]
        ds.append(x)
    fl = {}
    if r.random() < .4: fl['cpu'] = r.sample([0, 1, 2, 10] if kind in ('int', 'float') else ['f', '10', '1', '9', 'a', 'zz'], r.randint(1, 3))
    if r.random() < .4: fl['freq'] = r.sample([0, 1, 2, 3], r.randint(0, 3))
    if r.random() < .1: fl['nope'] = [1]
    return dict(d=ds, cols=r.sample(['load', 'freq', 'cpu', 'missing'], r.choice([1, 1, 2, 3])), piv=r.choice([None, 'cpu', 'cpu', 'freq']), fl=fl, zip=r.random() < .6, ev=r.random() < .3)
def expected(d, col, piv, fl):
    """{pivot value: [(position, value)]}"""
    if col not in d: return {}
    n = len(d[col]); out = {}
    if piv is not None and piv not in d: return {}
    for i in range(n):
        if any(k in d and k != piv and d[k][i] not in v for k, v in fl.items()): continue
        if piv is not None and piv in fl and d[piv][i] not in fl[piv]: continue
        out.setdefault(None if piv is None else d[piv][i], []).append((i, d[col][i]))
    return out
def order(vals):
    try: return sorted(vals, key=int)
    except (ValueError, TypeError):
        try: return sorted(vals, key=lambda x: int(x, 16))
        except (ValueError, TypeError): return sorted(vals)
def check(c):
    import pandas as pd, trappy
    from trappy.plotter import AttrConf
    from trappy.plotter.Constraint import ConstraintManager
    dfs = [pd.DataFrame(d, index=pd.Index([i / 2. for i in range(len(d['load']))])) for d in c['d']]
    traces, templ = dfs, None
    if c.get('ev'):
        traces = []
        for i, d in enumerate(dfs):
            t = trappy.BareTrace(name='n%d' % i); t.add_parsed_event('evt', d); traces.append(t)
        templ = traces[0].class_definitions['evt']
    piv = AttrConf.PIVOT if c['piv'] is None else c['piv']
    nt, nc = len(dfs), len(c['cols']); n = max(nt, nc)
    bad = nt != nc and min(nt, nc) > 1
    try: m = ConstraintManager(traces if nt > 1 else traces[0], c['cols'] if nc > 1 else c['cols'][0], templ, piv, dict(c['fl']), zip_constraints=c['zip'])
    except RuntimeError as e:
        return None if bad else 'rejected: %s' % e
    if bad: return 'incompatible lengths %d and %d accepted' % (nt, nc)
    T = list(range(nt)) if nt > 1 or n == 1 else [0] * n
    Cc = c['cols'] if nc > 1 or n == 1 else c['cols'] * n
    cons = list(m)
    allp = set()
    def agree(con, i, col):
        want = expected(c['d'][i], col, c['piv'], c['fl'])
        got = {(None if k == AttrConf.PIVOT_VAL and c['piv'] is None else k): [(int(round(t * 2)), None if v != v else v) for t, v in zip(s.index, s.tolist())] for k, s in con.result.items()}
        allp.update(con.result)
        return None if got == want else 'constraint on data %d column %s gives %r, expected %r' % (i, col, got, want)
    if c['zip']:
        if len(cons) != n: return '%d constraints, expected %d' % (len(cons), n)
        for con, i, col in zip(cons, T, Cc):
            if con.column != col: return 'column %r, expected %r' % (con.column, col)
            e = agree(con, i, col)
            if e: return e
            if con.trace_index != i: return 'trace index %r, expected %r' % (con.trace_index, i)
    else:
        if len(cons) != len(T) * len(Cc): return '%d constraints, expected %d' % (len(cons), len(T) * len(Cc))
        for con, (i, col) in zip(cons, [(i, col) for i in T for col in Cc]):
            if con.column != col: return 'column %r, expected %r' % (con.column, col)
            e = agree(con, i, col)
            if e: return e
    pv, cnt = m.generate_pivots()
    allw = set()
    for i in set(T):
        for col in set(Cc):
            if not c['zip'] or (i, col) in zip(T, Cc): allw |= {AttrConf.PIVOT_VAL if k is None else k for k in expected(c['d'][i], col, c['piv'], c['fl'])}
    if list(pv) != order(allw) and sorted(map(str, pv)) != sorted(map(str, allw)): return 'pivots %r, expected %r' % (list(pv), order(allw))
    if len(set(map(str, pv))) == len({(int(x, 16) if isinstance(x, str) and c['d'] and all(ch in '0123456789abcdef' for ch in x) else x) for x in pv}) and list(pv) != order(allw): return 'pivots %r, expected %r' % (list(pv), order(allw))
    if cnt != len(allw): return '%d pivots, expected %d' % (cnt, len(allw))
    g, cnt = m.generate_pivots(permute=True)
    if [x for x in g] != [(i, p) for i in range(nt) for p in list(pv)] or cnt != nt * len(allw): return 'permuted pivots'
