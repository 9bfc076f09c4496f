"""C26 on the real align, shift_series and Correlator."""
from common import *
RULE = 'random pairs of signals (0..9 samples, all-zero ones included) aligned at the front and at the back, and correlators over random two-level topologies with stub aggregators and correlation functions (also undefined), with signals sampled at different instants on both sides and resampled; positions, samples and the weighted total are compared; non-trivial: at least one non-zero sample'
def corpus():
    out = [dict(kind='top', t=[[0, 3, 6], [1, 4, 9]], v=[[0, 1, 2], [1, 0, 1]], g=[[1, 2, 0], [0, 3, 1]], c=v, base=b) for v in ([.5, .25], [.25, .5], [None, -.5], [.5, .5]) for b in (0., 2.)] + [dict(kind='align', x=x, y=y, mode=m) for x in ([0, 0, 1, 2], [1, 0, 0, 3], [0, 0, 0, 0], [5, 5, 5, 5]) for y in ([0, 1, 1, 0], [0, 0, 0, 1], [0, 0, 0, 0], [1, 0, 0, 0]) for m in ('front', 'back')]
    out += [dict(kind='corr', g=[[[1, 0, 2], [1, 1, 0]], [[0, 0, 3], [0, 4, 0]]], vals=v) for v in ([0.5, 1.0], [None, 0.25], [None, None], [0.0, -1.0])]
    return out
def top(r):
    at = lambda: sorted(r.sample(range(14), r.randint(2, 6))); v = lambda n: [r.choice([0, 0, 1, 2, -1]) for _ in range(n)]
    t = [at(), at()]; return dict(kind='top', t=t, v=[v(len(x)) for x in t], g=[v(len(x)) for x in t], c=[r.choice([None, 0.0, .5, 1.0, -.75, .125]) for _ in range(2)], base=r.choice([0., 1., 3.5]))
def gen(r):
    n = r.randint(1, 9); s = lambda: [r.choice([0, 0, 0, 1, 2, -1]) for _ in range(n)]
    if r.random() < .6: return dict(kind='align', x=s(), y=s(), mode=r.choice(['front', 'back']))
    if r.random() < .4: return top(r)
    k = r.randint(1, 4); n = r.randint(3, 6)
    return dict(kind='corr', g=[[s2, s3] for s2, s3 in ([[r.choice([0, 0, 1, 2]) for _ in range(n)] for _ in range(2)] for _ in range(k))], vals=[r.choice([None, 0.0, .5, 1.0, -.75, .125]) for _ in range(k)])
def check(c):
    import pandas as pd
    from trappy.stats.Correlator import align, Correlator
    if c['kind'] == 'align':
        x, y = c['x'], c['y']; n = len(x); ix = [i / 8. for i in range(n)]
        X, Y = pd.Series([float(v) for v in x], index=ix), pd.Series([float(v) for v in y], index=ix)
        px, py = [i for i in range(n) if x[i]], [i for i in range(n) if y[i]]
        gx, gy, sh = align(X, Y, mode=c['mode'])
        d = 0 if not px or not py else (px[0] - py[0] if c['mode'] == 'front' else px[-1] - py[-1])
        if sh != d: return 'distance %r, expected %r' % (sh, d)
        f = lambda v, k: [None if not 0 <= i - k < n else float(v[i - k]) for i in range(n)]
        wx, wy = f(x, max(0, -d)), f(y, max(0, d))
        got = [[None if v != v else v for v in s.tolist()] for s in (gx, gy)]
        if got != [wx, wy]: return 'aligned to %r, expected %r' % (got, [wx, wy])
        if list(gx.index) != ix or list(gy.index) != ix: return 'index changed'
        if X.tolist() != x or Y.tolist() != y: return 'input modified'
        return None
    if c['kind'] == 'top': return check_top(c)
    # correlators on stub aggregators: the level "all" has one group that is never shifted
    n = len(c['g'][0][0]); ix = pd.Index([i / 8. for i in range(n)])
    class Ix: index = ix
    class Ag:
        def __init__(self, k): self.k = k; self.indexer = Ix
        def aggregate(self, level='all', **kw):
            if level == 'all': return [pd.Series([1.] * n, index=ix)]
            return [pd.Series([float(v) for v in g[self.k]], index=ix) for g in c['g']]
    calls = []
    def cf(a, b):
        if not armed: return 0.0
        calls.append(([v for v in a], [v for v in b])); v = c['vals'][len(calls) - 1]
        return float('nan') if v is None else v
    w = [sum(1 for v in g[0] if v) + sum(1 for v in g[1] if v) for g in c['g']]
    if not sum(w): raise Skip()
    armed = False
    k = Correlator(Ag(0), Ag(1), corrfunc=cf)
    armed = True
    out, total = k.correlate('lvl', resample=False)
    if [None if v != v else v for v in out] != c['vals']: return 'correlations %r, expected %r' % (out, c['vals'])
    for (a, b), g in zip(calls, c['g']):
        if a != g[0] or b != g[1]: return 'correlated %r and %r, expected %r' % (a, b, g)
    want = sum(wi * v for wi, v in zip(w, c['vals']) if v is not None) / float(sum(w))
    if abs(total - want) > 1e-9: return 'total %r, expected %r' % (total, want)

def check_top(c):
    # the instants of the two sides lie between those of the uniform grid, but for the first one
    import pandas as pd
    from trappy.stats.Correlator import Correlator
    D = 0.000025; lo = min(min(t) for t in c['t']); hi = max(max(t) for t in c['t'])
    if lo == hi: raise Skip()
    at = lambda q: c['base'] + D * (q - lo) + (0 if q == lo else D * .4)
    class Ix:
        def __init__(self, k): self.index = pd.Index([at(q) for q in c['t'][k]])
    class Ag:
        def __init__(self, k): self.k = k; self.indexer = Ix(k)
        def aggregate(self, level='all', **kw):
            return [pd.Series([float(x) for x in (c['v'] if level == 'all' else c['g'])[self.k]], index=self.indexer.index)]
    n = hi - lo + 1
    def held(k, v):
        out = []
        for j in range(n):
            past = [x for q, x in zip(c['t'][k], v) if (q - lo) + (0 if q == lo else .4) <= j]
            out.append(float(past[-1]) if past else None)
        return out
    clean = lambda s: [None if x != x else float(x) for x in s]
    mv = lambda s, k: [None if not 0 <= i - k < n else s[i - k] for i in range(n)]
    pair = lambda x, y, d: (mv(x, max(0, -d)), mv(y, max(0, d)))
    X, Y = held(0, c['v'][0]), held(1, c['v'][1]); px, py = [i for i in range(n) if X[i] != 0], [i for i in range(n) if Y[i] != 0]
    ds = [px[0] - py[0], px[-1] - py[-1]] if px and py else [0, 0]
    if ds[0] == ds[1]: c = dict(c, c=[c['c'][0]] * 2)
    pairs = [pair(X, Y, d) for d in ds]; seen = []; armed = True
    def cf(a, b):
        p = (clean(a), clean(b)); seen.append(p)
        if armed:
            if p not in pairs: bad.append(p); return 0.0
            v = c['c'][pairs.index(p)]; return float('nan') if v is None else v
        return 1.0
    bad = []; k = Correlator(Ag(0), Ag(1), corrfunc=cf)
    if bad: return 'aligned top level to %r, expected one of %r' % (bad[0], pairs)
    v = [x or 0.0 for x in c['c']]; d = ds[0] if v[0] >= v[1] else ds[1]
    armed = False; seen = []; G = pair(held(0, c['g'][0]), held(1, c['g'][1]), d)
    if not sum(1 for s in G for x in s if x != 0): raise Skip()
    out, total = k.correlate('lvl')
    if seen != [G]: return 'correlated %r, expected %r (shift %r of %r)' % (seen, G, d, ds)
    if list(out) != [1.0] or abs(total - 1.0) > 1e-9: return 'correlations %r, total %r' % (out, total)
