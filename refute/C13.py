"""C13 on the real handle_duplicate_index."""
from common import *
RULE = 'random sorted times with runs of 1..6 equal times anywhere (gaps down to 1e-7, so that the available room is smaller or larger than the maximum step), as Series or as DataFrame with line numbers in any row order; non-trivial: at least one run of equal times'
def corpus():
    out = []
    for t in ([1, 1], [0, 1, 1, 6, 7], [1, 1, 1, 1], [1, 1, 1, 1.000001], [1, 1, 1, 1, 1.0000005, 2, 2], [1, 2, 3], [5], [1, 1, 2, 2, 3, 3], [0, 0, 0, 0, 0, 1e-6, 1e-6], [3, 3, 3, 3.0000001, 3.0000001, 3.0000001]):
        for kind in ('series', 'frame', 'lines'): out.append(dict(t=[float(x) for x in t], kind=kind, perm=list(range(len(t))), md=None))
    for t in ([1.] * 130 + [2.], [1.] + [2.] * 150 + [2.0001] * 120 + [2.0002], [float(i // 2) for i in range(2500)]):
        for kind in ('series', 'lines'): out.append(dict(t=t, kind=kind, perm=list(range(len(t))), md=None))
    return out
def gen(r):
    t, x = [], r.choice([0., 1., 123.456789, 4e4])
    for _ in range(r.randint(1, 5)):
        t += [x] * r.choice([1, 1, 2, 3, 4, 6] + [r.randint(60, 200)] * (r.random() < .05)); x += r.choice([1e-7, 5e-7, 1e-6, 1.5e-6, 1e-5, .1, 7.])
    n = len(t); perm = list(range(n)); kind = r.choice(['series', 'frame', 'lines', 'lines'])
    if kind == 'lines': r.shuffle(perm)
    return dict(t=t, kind=kind, perm=perm, md=r.choice([None, None, 1e-6, 1e-3, 1e-5]))
def check(c):
    import pandas as pd
    from trappy.utils import handle_duplicate_index
    T = c['t']; n = len(T); idx = pd.Index([T[i] for i in c['perm']], name='Time', dtype='float64')
    vals = ['v%d' % i for i in c['perm']]
    if c['kind'] == 'series': d = pd.Series(vals, index=idx)
    else:
        d = pd.DataFrame({'v': vals, 'k': [10 * i for i in c['perm']]}, index=idx)
        if c['kind'] == 'lines': d['__line'] = c['perm']
    md = c['md'] or 1e-6
    res = handle_duplicate_index(d, **({'max_delta': md} if c['md'] else {}))
    got = [float(x) for x in res.index]
    rv = list(res) if c['kind'] == 'series' else list(res['v'])
    if rv != ['v%d' % i for i in range(n)]: return 'rows are %r' % rv
    if c['kind'] != 'series' and [int(x) for x in res['k']] != [10 * i for i in range(n)]: return 'cells moved'
    for i in range(n):
        first = i == 0 or T[i] != T[i - 1]
        if first and got[i] != T[i]: return 'time %d was %r, is %r' % (i, T[i], got[i])
        if i and not got[i] > got[i - 1]: return 'times %r are not increasing' % got
        if first:
            j = i
            while j < n and T[j] == T[i]: j += 1
            nxt = [T[j] if j < n else None]
        if nxt[0] is not None and not got[i] < nxt[0]: return 'time %d is %r, beyond the next time %r' % (i, got[i], nxt[0])
        if not first and got[i] - got[i - 1] > md * (1 + 1e-6) + 1e-11: return 'step %r at %d is larger than %r' % (got[i] - got[i - 1], i, md)
