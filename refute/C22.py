"""C22 on the real power classes and pivot helper."""
from common import *
RULE = 'random power tables (1..3 cpu masks, 1..10 rows, 1..4 load columns, masks of different widths with commas) and label maps (complete, incomplete, with unused names); every cell of pivots, frequencies, loads and normalized loads is compared with a direct computation; non-trivial: at least one row'
MASKS = ['0000000f', '000000f0', '00000003', '1', 'ff,ffffffff', '00,00000100']
def corpus():
    return [dict(rows=[[1, '0000000f', 500000, [10, 20]], [2, '000000f0', 800000, [1, 2]], [3, '0000000f', 900000, [30, 5]], [4, '000000f0', 400000, [7, 8]]], mp=m) for m in ([['0000000f', 'A7'], ['000000f0', 'A15']], [['0000000f', 'A7']], [['000000f0', 'x'], ['0000000f', 'y']])] + [dict(rows=[[1, '00000003', 1000, [1]]], mp=[['00000003', 'l']])] + [dict(rows=[[1, '000000f0', 800000, [1]]] + [[t, '0000000f', 1000 * t, [t]] for t in range(2, 400)], mp=[['0000000f', 'A'], ['000000f0', 'B']])]
def gen(r):
    ms = r.sample(MASKS, r.randint(1, 3)); k = r.randint(1, 4)
    R = [[t, r.choice(ms), r.choice([100000, 250000, 999000, 1400000, 123456]), [r.randint(0, 100) for _ in range(k)]] for t in sorted(r.sample(range(1, 90), r.choice([r.randint(1, 10)] * 7 + [r.randint(40, 89)])))]
    used = sorted({x[1] for x in R}); mp = [[m, 'L%d' % i] for i, m in enumerate(used)]; r.shuffle(mp)
    if r.random() < .15: mp.pop()
    return dict(rows=R, mp=mp)
def table(df): return {c: [None if v != v else float(v) for v in df[c].tolist()] for c in df.columns}
def eq(a, b):
    return set(a) == set(b) and all(len(a[k]) == len(b[k]) and all((x is None) == (y is None) and (x is None or abs(x - y) <= 1e-9 * max(1, abs(y))) for x, y in zip(a[k], b[k])) for k in a)
def check(c):
    import pandas as pd
    from trappy.cpu_power import pivot_with_labels, CpuInPower, CpuOutPower, num_cpus_in_mask
    from trappy.devfreq_power import DevfreqInPower, DevfreqOutPower
    R = c['rows']; mp = dict(map(tuple, c['mp'])); masks = {x[1] for x in R}
    idx = pd.Index([x[0] / 4. for x in R], name='Time'); nl = len(R[0][3])
    d = {'cpus': [x[1] for x in R], 'freq': [x[2] for x in R]}
    for j in range(nl): d['load%d' % j] = [x[3][j] for x in R]
    df = pd.DataFrame(d, index=idx); copy = df.copy(deep=True)
    for m in masks:
        if num_cpus_in_mask(m) != bin(int(m.replace(',', ''), 16)).count('1'): return 'cpus in mask %s: %d' % (m, num_cpus_in_mask(m))
    missing = masks - set(mp)
    def pivot(vals):
        out = {}
        for m in masks:
            cur, col = None, []
            for x, v in zip(R, vals):
                if x[1] == m: cur = float(v)
                col.append(cur)
            out[mp[m]] = col
        return out
    i, o = CpuInPower(), CpuOutPower(); i.data_frame = df; o.data_frame = df
    load = [sum(x[3]) for x in R]
    calls = [('pivot', lambda: pivot_with_labels(df, 'freq', 'cpus', mp), [x[2] for x in R]), ('in freqs', lambda: i.get_all_freqs(mp), [x[2] / 1000. for x in R]), ('out freqs', lambda: o.get_all_freqs(mp), [x[2] / 1000. for x in R]), ('load', lambda: i.get_load_data(mp), load)]
    if set(mp) <= masks:
        mx = {m: max(x[2] for x in R if x[1] == m) for m in masks}
        calls.append(('normalized load', lambda: i.get_normalized_load_data(mp), [l * x[2] / (mx[x[1]] * float(bin(int(x[1].replace(',', ''), 16)).count('1'))) for l, x in zip(load, R)]))
    for what, f, vals in calls:
        try: got = f()
        except KeyError:
            if missing: continue
            return '%s: KeyError' % what
        if missing: return '%s: no error for the mask %r without a name' % (what, sorted(missing))
        if [float(t) for t in got.index] != [x[0] / 4. for x in R]: return '%s: times %r' % (what, list(got.index))
        if not eq(table(got), pivot(vals)): return '%s gives %r, expected %r' % (what, table(got), pivot(vals))
        if not df.equals(copy): return '%s modified the table' % what
    for K in (DevfreqInPower, DevfreqOutPower):
        k = K(); k.data_frame = df
        if [float(x) for x in k.get_all_freqs()['freq']] != [x[2] / 1000000 for x in R]: return '%s frequencies' % K.__name__
