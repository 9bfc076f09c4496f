"""C17 on the real Topology and MultiTriggerAggregator."""
from common import *
RULE = 'random topologies (1..3 levels, groups added in several calls, overlapping between levels) and triggers on one or two event tables; groups, counts, indices and the aggregation of every level, repeated in random order, are compared with a direct computation; non-trivial: at least one group'
def corpus():
    ev = [[1, 0, 0, 3], [2, 1, 0, 4], [3, 0, 1, 5], [4, 2, 0, 6], [5, 3, 1, 7]]
    return [dict(adds=[['l1', [[0, 1], [2, 3]]], ['l2', [[0], [1, 2]]], ['l1', [[4]]]], ev=ev, order=o, agg=a, cl=None, trig=[[0, 1], [1, -1]]) for o in (['l1', 'l2', 'all', 'l1', 'all'], ['all', 'all', 'l2', 'l2']) for a in (None, 'sum', 'scale', 'same', 'kw')] + \
        [dict(adds=[], cl=[[0, 1], [2, 3]], ev=ev, order=['cluster', 'cpu', 'cluster', 'all', 'cpu'], agg=a, trig=[[0, 1]]) for a in (None, 'sum')]
def gen(r):
    adds = [[r.choice(['l1', 'l2']), [r.sample(range(5), r.randint(1, 3)) for _ in range(r.randint(1, 2))]] for _ in range(r.randint(1, 3))]
    cl = r.choice([None, None, [[0, 1], [2]], [[3], [1, 4], [0]]])
    lv = sorted({a[0] for a in adds} | ({'cluster', 'cpu'} if cl else set())) + ['all']
    ev = [[t, r.randint(0, 4), r.randint(0, 1), r.randint(0, 9)] for t in sorted(r.sample(range(1, 60), r.randint(1, 10)))]
    return dict(adds=adds, cl=cl, ev=ev, order=[r.choice(lv) for _ in range(r.randint(2, 6))], agg=r.choice([None, None, 'sum', 'scale', 'same', 'kw', 'kw']), trig=[[r.randint(0, 1), r.choice([1, -1, 3])] for _ in range(r.randint(1, 2))])
def check(c):
    import trappy, pandas as pd, numpy as np
    from trappy.stats.Topology import Topology
    from trappy.stats.Trigger import Trigger
    from trappy.stats.Aggregator import MultiTriggerAggregator
    given = [list(g) for g in c['cl']] if c['cl'] else []
    top = Topology(clusters=given) if c['cl'] else Topology()
    levels, nodes = {}, set()
    if c['cl']:
        levels['cluster'] = [list(g) for g in c['cl']]; nodes |= {n for g in c['cl'] for n in g}
    for k, (n, g) in enumerate(c['adds']):
        mine = [list(x) for x in g]; top.add_to_level('cluster' if c['cl'] and k == 0 and n == 'l1' else n, mine); n = 'cluster' if c['cl'] and k == 0 and n == 'l1' else n
        if mine != g or given != (c['cl'] or []): return 'the lists handed in changed: %r, %r' % (mine, given)
        levels.setdefault(n, []); levels[n] += g; nodes |= {x for y in g for x in y}
    if set(top.flatten()) != nodes or len(top.flatten()) != len(nodes): return 'nodes %r, expected %r' % (top.flatten(), nodes)
    if c['cl']:
        cpu = top.get_level('cpu')
        if sorted(map(list, cpu)) != sorted([n] for g in c['cl'] for n in g) and c['cl']: return 'cpu level %r' % cpu
        levels['cpu'] = cpu
    for n, g in list(levels.items()):
        got = top.get_level(n)
        if [list(x) for x in got] != g: return 'level %s is %r, expected %r' % (n, got, g)
        if top.level_span(n) != len(g): return 'level_span(%s) = %r' % (n, top.level_span(n))
        if not top.has_level(n): return 'has_level(%s)' % n
        for i, x in enumerate(g):
            if top.get_index(n, x) != g.index(x): return 'get_index(%s, %r) = %r' % (n, x, top.get_index(n, x))
            if list(top.get_node(n, i)) != x: return 'get_node(%s, %d) = %r' % (n, i, top.get_node(n, i))
    al = top.get_level('all')
    if len(al) != 1 or sorted(al[0]) != sorted(nodes): return 'level all is %r' % al
    if top.level_span('all') != 1: return 'level_span(all) = %r, 1 group' % top.level_span('all')
    if top.has_level('nope') or set(top) != set(levels): return 'levels %r' % sorted(top)
    # events: [time, node, table, extra]
    dfs = []
    for k in (0, 1):
        e = [x for x in c['ev'] if x[2] == k]
        dfs.append(pd.DataFrame({'n': [x[1] for x in e], 'x': [x[3] for x in e]}, index=pd.Index([x[0] / 4. for x in e], dtype='float64', name='Time')))
    if any(len(dfs[k]) == 0 for k, _ in c['trig']): raise Skip()
    tr = trappy.BareTrace(); tr.add_parsed_event('e0', dfs[0]); tr.add_parsed_event('e1', dfs[1])
    trig = [Trigger(tr, tr.class_definitions['e%d' % k], {}, v, 'n') for k, v in c['trig']]
    fn = {None: None, 'sum': lambda s: float(s.sum()), 'scale': lambda s: s * 2, 'same': lambda s: s, 'kw': lambda s, factor=1, plus=0: s * factor + plus}[c['agg']]
    ag = MultiTriggerAggregator(trig, top, aggfunc=fn) if fn else MultiTriggerAggregator(trig, top)
    idx = sorted({x[0] / 4. for x in c['ev'] if x[2] in [k for k, _ in c['trig']]})
    def base(n):
        d = {t: 0.0 for t in idx}
        for k, v in c['trig']:
            for x in c['ev']:
                if x[2] == k and x[1] == n: d[x[0] / 4.] = float(v)
        return d
    levels['all'] = al
    for step, l in enumerate(c['order']):
        if l not in levels: continue
        kws = dict(factor=3 + step, plus=step % 2) if c['agg'] == 'kw' and step % 3 < 2 else {}
        res = ag.aggregate(level=l, **kws)
        if len(res) != len(levels[l]): return 'step %d: %d results for level %s, %d groups' % (step, len(res), l, len(levels[l]))
        for g, x in zip(levels[l], res):
            d = {t: sum(base(n)[t] * kws.get('factor', 1) + kws.get('plus', 0) for n in g) * (2 if c['agg'] == 'scale' else 1) for t in idx}
            if c['agg'] == 'sum':
                if abs(float(x) - sum(d.values())) > 1e-9: return 'step %d: level %s group %r gives %r, expected %r' % (step, l, g, x, sum(d.values()))
                continue
            got = {float(t): float(v) for t, v in zip(x.index, x.values)}
            if got != d or [float(t) for t in x.index] != idx: return 'step %d: level %s group %r gives %r, expected %r' % (step, l, g, got, d)
