"""C17: topology levels and aggregation by level."""
from pyvc.unit import *
from pyvc.models import Opaque

class NodeV(ExtU):
    def py_eq(self, ex, o): return self.t == o.t if isinstance(o, NodeV) else False
N = U('Node', NodeV); S_N = N.sort
GROUP = ListS(N); VALS = ListS(GROUP)
TOP = 'trappy.stats.Topology.Topology.'

def assume_all(ex, l):
    for a in l: ex.assume(a)
def group_len(v, g): return z3.Select(v.cell.comps[1], g)
def group_at(v, g, j): return z3.Select(z3.Select(v.cell.comps[2], g), j)
def groups(ex, v):
    g = z3.Int('gl'); ex.assume(z3.ForAll([g], group_len(v, g) >= 0, patterns=[group_len(v, g)]))
def topology(ex):
    ob = PyObj(ex, ex.src('trappy.stats.Topology', 'Topology'))
    lv, nodes = ex.fresh(DictS(STR, VALS), 'levels'), ex.fresh(SetS(N), 'nodes')
    ob.attrs.update(_levels=lv, _nodes=nodes)
    return ob, lv, nodes
class Union:
    """the nodes of the first k groups, and the nodes there were before"""
    def __init__(self, ex, v, nodes):
        self.U = U = ex.fresh_fun('union', I, S_N, B); self.w = w = ex.fresh_fun('witness', I, S_N, I); self.n0 = nodes
        n, k, x, j = v.cell.comps[0], z3.Int('uk'), z3.Const('ux', S_N), z3.Int('uj')
        self.isin = isin = ex.fresh_fun('in_group', I, S_N, B)
        assume_all(ex, [z3.ForAll([x], U(0, x) == z3.Select(nodes, x), patterns=[U(0, x)]),
            z3.ForAll([k, x], z3.Implies(z3.And(0 <= k, k < n), U(k + 1, x) == z3.Or(U(k, x), isin(k, x))), patterns=[U(k + 1, x)]),
            z3.ForAll([k, x], z3.Implies(isin(k, x), z3.And(0 <= w(k, x), w(k, x) < group_len(v, k), group_at(v, k, w(k, x)) == x)), patterns=[isin(k, x)]),
            z3.ForAll([k, j], z3.Implies(z3.And(0 <= j, j < group_len(v, k)), z3.And(isin(k, group_at(v, k, j)), w(k, group_at(v, k, j)) <= j)), patterns=[group_at(v, k, j)])])
class AddToLevel(Unit):
    name = 'Topology.add_to_level'
    functions = (TOP + 'add_to_level',)
    assumes = ('nodes are hashable values compared by equality',)
    budget = 200
    def setup(self, ex):
        def inv(ctx):
            if ctx.seq is None: return []
            outer = ex.loops[-1] if ex.loops else None; out = []
            for lb in ctx.labels:
                if lb != ('a', self.ob.label, '_nodes') and not (lb[0] == 'c' and lb[1] == 'set'): continue
                def f(c, lb=lb):
                    v = c.cur(lb); x = z3.Const('ix', S_N); U = self.U
                    cur = v.cell.comps[0] if isinstance(v, VSet) else v[1][0]
                    if cur.sort() != z3.ArraySort(S_N, B): return z3.BoolVal(True)
                    if outer is None: return z3.ForAll([x], z3.Select(cur, x) == U.U(c.k, x), patterns=[z3.Select(cur, x), U.U(c.k, x)])
                    return z3.ForAll([x], z3.Select(cur, x) == z3.Or(U.U(outer.k, x), z3.And(U.isin(outer.k, x), U.w(outer.k, x) < c.k)), patterns=[z3.Select(cur, x)])
                out.append((('must', 'nodes', lb), f))
            return out
        ex.templates.append(inv)
    def script(self, ex):
        ob, lv, nodes = topology(ex); self.ob = ob
        vals = ex.fresh(VALS, 'groups'); groups(ex, vals); name = ex.fresh(STR, 'level'); groups(ex, VList(vals.cell))
        dom, ln, gl, gs = lv.cell.comps; n0 = nodes.cell.comps[0]; other = ex.fresh(STR, 'another_level')
        self.U = U = Union(ex, vals, n0); vc = vals.cell.comps
        try: ex.call(ex.getattr(ob, 'add_to_level'), [name, vals], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        q = ex.fresh(INT, 'q').t; r = ex.fresh(INT, 'r').t; x = ex.fresh(N, 'x').t
        d1, l1, gl1, gs1 = ex.dict_comps(ob.attrs['_levels'], DictS(STR, VALS)); nd = ob.attrs['_nodes']
        old = z3.If(z3.Select(dom, name.t), z3.Select(ln, name.t), 0)
        ex.prove('the level exists afterwards', z3.Select(d1, name.t))
        ex.prove('the level has its groups and the new ones', z3.Select(l1, name.t) == old + vc[0])
        ex.assume(z3.And(0 <= q, q < old + vc[0]))
        G1, L1 = z3.Select(z3.Select(gs1, name.t), q), z3.Select(z3.Select(gl1, name.t), q)
        ex.prove('the groups of the level stay in place', z3.Implies(q < old, z3.And(L1 == z3.Select(z3.Select(gl, name.t), q), z3.Select(G1, r) == z3.Select(z3.Select(z3.Select(gs, name.t), q), r))))
        ex.prove('the new groups follow in order', z3.Implies(q >= old, z3.And(L1 == z3.Select(vc[1], q - old), z3.Select(G1, r) == z3.Select(z3.Select(vc[2], q - old), r))))
        o = other.t; ex.assume(o != name.t)
        ex.prove('other levels are untouched', z3.And(z3.Select(d1, o) == z3.Select(dom, o), z3.Implies(z3.Select(dom, o), z3.And(z3.Select(l1, o) == z3.Select(ln, o), z3.Select(gl1, o) == z3.Select(gl, o), z3.Select(gs1, o) == z3.Select(gs, o)))))
        ex.prove('the nodes are those there were and those of the groups', z3.Select(ex.set_comps(nd, SetS(N))[0], x) == U.U(vc[0], x))
class Sharing(Unit):
    """the level is a list of its own: the lists handed in do not change with it, nor it with them"""
    name = 'Topology.add_to_level: sharing'
    functions = (TOP + 'add_to_level',)
    def setup(self, ex): pass
    def script(self, ex):
        ob = PyObj(ex, ex.src('trappy.stats.Topology', 'Topology')); ob.attrs.update(_levels=ex.mkdict([]), _nodes=ex.fresh(SetS(N), 'nodes'))
        a, b, c = ex.fresh(VALS, 'a'), ex.fresh(VALS, 'b'), ex.fresh(VALS, 'c')
        for v in (a, b, c): groups(ex, v)
        n = [v.cell.comps[0] for v in (a, b, c)]
        size = lambda v: ex.term(ex.length(v), INT)
        try:
            ex.call(ex.getattr(ob, 'add_to_level'), ['l', a], {})
            ex.call(ex.getattr(ob, 'add_to_level'), ['l', b], {})
            ex.prove('a list that was handed in is not changed by a later call', z3.And(size(a) == n[0], size(b) == n[1]))
            ex.call(ex.getattr(a, 'extend'), [c], {}); ex.call(ex.getattr(b, 'extend'), [c], {})
            lv = ex.getitem(ob.attrs['_levels'], 'l')
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the level does not change with the lists that were handed in', size(lv) == n[0] + n[1])
class Init(Unit):
    """a new topology has no level and no node; clusters give the levels cluster and cpu"""
    name = 'Topology.__init__'
    functions = (TOP + '__init__', TOP + 'flatten')
    assumes = ('Topology.add_to_level by its contract',)
    def setup(self, ex):
        def add(ex, a, k):
            ob, name, vals = a
            self.calls.append((name, vals))
            if len(self.calls) == 1: ob.attrs['_nodes'] = self.nodes
            ex.setitem_k(ob.attrs['_levels'], name, ex.fresh(VALS, 'level'))
        ex.specs[TOP + 'add_to_level'] = add
        def inv(ctx):
            out = []
            for l in ctx.labels:
                if l[0] == 'c' and l[1] == 'list':
                    def f(c, l=l):
                        v = c.cur(l); j = z3.Int('ij')
                        if not isinstance(v, VList) or v.cell.items is not None or v.cell.shape != VALS: return z3.BoolVal(True)
                        n, ls, gs = v.cell.comps
                        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(z3.Select(ls, j) == 1, z3.Select(z3.Select(gs, j), 0) == c.seq.get(j).t)), patterns=[z3.Select(ls, j), z3.Select(gs, j)])
                    if ctx.seq is not None: out.append((('must', 'single nodes') + tuple(map(str, l)), f))
            return out
        ex.templates.append(inv)
    def script(self, ex):
        self.calls = []; cl = ex.fresh(VALS, 'clusters'); self.nodes = nodes = ex.fresh(SetS(N), 'nodes')
        try: t = ex.call(ex.src('trappy.stats.Topology', 'Topology'), [], {'clusters': cl} if ex.choose('clusters given') else {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        if not self.calls:
            ex.prove('no level and no node without clusters', z3.And(tbool(ex.eq(ex.length(t.attrs['_levels']), 0)), tbool(ex.eq(ex.length(t.attrs['_nodes']), 0)))); return
        ex.prove('the clusters are the groups of level cluster', tbool(len(self.calls) == 2 and self.calls[0][0] == 'cluster' and self.calls[0][1] is cl and self.calls[1][0] == 'cpu'))
        v = self.calls[1][1]; cs = ex.list_comps(v, VALS); q = ex.fresh(INT, 'q').t; x = ex.fresh(N, 'x').t
        ex.prove('as many cpu groups as nodes', cs[0] == ex.term(ex.length(nodes), INT))
        ex.assume(z3.And(0 <= q, q < cs[0]))
        ex.prove('a cpu group is one node', z3.Select(cs[1], q) == 1)
        ex.prove('the node of a cpu group is one of the nodes', z3.Select(nodes.cell.comps[0], z3.Select(z3.Select(cs[2], q), 0)))
class GroupV(ExtU):
    def py_eq(self, ex, o): return self.t == o.t if isinstance(o, GroupV) else False
GR = U('Group', GroupV)
class Lookups(Unit):
    """lookups agree with the groups of the level"""
    name = 'Topology lookups'
    functions = tuple(TOP + n for n in ('get_level', 'get_index', 'get_node', 'flatten', 'level_span', 'has_level'))
    def setup(self, ex): pass
    def script(self, ex):
        ob = PyObj(ex, ex.src('trappy.stats.Topology', 'Topology')); name = ex.fresh(STR, 'level')
        lv, nodes = ex.fresh(DictS(STR, ListS(GR)), 'levels'), ex.fresh(SetS(N), 'nodes'); ob.attrs.update(_levels=lv, _nodes=nodes)
        dom, ln, gs = lv.cell.comps; nn = name.t
        ex.assume(z3.Select(ln, nn) >= 0)
        call = lambda f, *a: ex.call(ex.getattr(ob, f), list(a), {})
        what = None
        for f in ('all', 'get_level', 'get_index', 'get_node', 'level_span', 'has_level'):
            if ex.choose(f): what = f; break
        if what is None: return
        if what == 'all':
            try: g = call('get_level', 'all'); s = call('level_span', 'all'); h = call('get_node', 'all', 0)
            except PyRaise as e: ex.prove('level all exists (%s)' % e.exc.name, False); return
            it = ex.need_items(ex.seqof(g)); ex.prove('level all is one group', tbool(len(it) == 1)); ex.prove('level all counts one group', tbool(ex.eq(s, 1)))
            for w, l in (('the group of level all', it[0]), ('get_node of level all', h)):
                sq = ex.seqof(l); q = ex.fresh(INT, 'q').t; x = ex.fresh(N, 'x').t; m = ex.term(ex.length(sq), INT)
                ex.prove(w + ' has as many nodes as the topology', m == ex.term(ex.length(nodes), INT))
                ex.prove(w + ' has only nodes of the topology', z3.Implies(z3.And(0 <= q, q < m), z3.Select(nodes.cell.comps[0], sq.get(q).t)))
                if sq.inv is None: raise Unsupported('order of the nodes')
                i = sq.inv.pos(x); ex.prove(w + ' has every node', z3.Implies(z3.Select(nodes.cell.comps[0], x), z3.And(0 <= i, i < m, sq.get(i).t == x)))
            return
        if what == 'has_level':
            r = call('has_level', name); ex.prove('has_level tells whether the level was added', tbool(ex.truth(r) if not isinstance(r, bool) else r) == z3.Select(dom, nn)); return
        ex.assume(nn != lit('all'))
        g, i = ex.fresh(GR, 'group'), ex.fresh(INT, 'i')
        try: r = call(what, *([name] + ([g] if what == 'get_index' else [i] if what == 'get_node' else [])))
        except PyRaise as e:
            if e.exc.name == 'KeyError': ex.prove('KeyError only for a level that was never added', z3.Not(z3.Select(dom, nn)))
            elif what == 'get_index' and e.exc.name == 'ValueError':
                q = ex.fresh(INT, 'q').t; ex.prove('ValueError only for a group that is not in the level', z3.Implies(z3.And(0 <= q, q < z3.Select(ln, nn)), z3.Select(z3.Select(gs, nn), q) != g.t))
            elif what == 'get_node' and e.exc.name == 'IndexError': ex.prove('IndexError only for an index out of range', z3.Not(z3.And(0 <= i.t, i.t < z3.Select(ln, nn))))
            else: ex.prove('never fails (%s)' % e.exc.name, False)
            return
        ex.prove('the level exists', z3.Select(dom, nn)); L, A = z3.Select(ln, nn), z3.Select(gs, nn); q = ex.fresh(INT, 'q').t
        if what == 'get_level':
            cs = ex.list_comps(r, ListS(GR)); ex.prove('get_level returns all groups in order', z3.And(cs[0] == L, z3.Implies(z3.And(0 <= q, q < L), z3.Select(cs[1], q) == z3.Select(A, q))))
        elif what == 'level_span': ex.prove('level_span is the number of groups', ex.term(r, INT) == L)
        elif what == 'get_index':
            k = ex.term(r, INT); ex.prove('get_index is the first position of the group', z3.And(0 <= k, k < L, z3.Select(A, k) == g.t, z3.Implies(z3.And(0 <= q, q < k), z3.Select(A, q) != g.t)))
        else: ex.prove('get_node returns the group at the index', z3.Implies(0 <= i.t, z3.And(i.t < L, r.t == z3.Select(A, i.t))))

AG = 'trappy.stats.Aggregator.'
ROW = z3.ArraySort(z3.RealSort(), z3.RealSort())        # time -> value
GD, GV = Scalar('NODE_B', z3.ArraySort(S_N, B)), Scalar('NODE_ROW', z3.ArraySort(S_N, ROW))
class Store:
    """_result: for every node its series, as ghost arrays dom: node -> present, val: node -> time -> value"""
    def __init__(self, ex, dom, val):
        ex.ghosts['rdom'] = Sym(dom, GD); ex.ghosts['rval'] = Sym(val, GV)
class Result(Ext):
    def __init__(self, zeros): self.zeros = zeros
    def py_contains(self, ex, k): return Sym(z3.Select(ex.ghosts['rdom'].t, k.t), BOOL)
    def py_getitem(self, ex, k):
        if not ex.decide(z3.Select(ex.ghosts['rdom'].t, k.t)): ex.raise_('KeyError', k)
        return Entry(k)
    def py_setitem(self, ex, k, v):
        if not isinstance(v, Zeros): raise Unsupported('another value in the result')
        ex.ghost_set('rdom', Sym(z3.Store(ex.ghosts['rdom'].t, k.t, z3.BoolVal(True)), GD))
        ex.ghost_set('rval', Sym(z3.Store(ex.ghosts['rval'].t, k.t, z3.K(z3.RealSort(), z3.RealVal(0))), GV))
class Zeros(Ext):
    """indexer.series(): zero at every time of the index"""
class Entry(Ext):
    def __init__(self, node): self.node = node
    def py_setitem(self, ex, t, v):
        t, v = ex.term(t, REAL), ex.term(v, REAL)
        r = ex.ghosts['rval'].t; ex.ghost_set('rval', Sym(z3.Store(r, self.node.t, z3.Store(z3.Select(r, self.node.t), t, v)), GV))
class Entries(Ext):
    """a series of n entries at different times"""
    def __init__(self, n, at, v, pos): self.n, self.at, self.v, self.pos = n, at, v, pos
    def seq(self, get):
        s = Seq(n=Sym(self.n, INT), get=get)
        s.inv = Inverse(lambda j: self.at(j), lambda t: self.pos(t), lambda t: z3.And(0 <= self.pos(t), self.pos(t) < self.n, self.at(self.pos(t)) == t))
        return s
    def py_getattr(self, ex, n):
        if n == 'index': return Times(self)
        if n in ('items', 'iteritems'): return Builtin(n, lambda ex, a, k: self.seq(lambda j: (Sym(self.at(j), REAL), Sym(self.v(j), REAL))))
        raise Unsupported('attribute %s of a series' % n)
    def py_getitem(self, ex, t):
        t = ex.term(t, REAL); p = self.pos(t)
        if not ex.decide(z3.And(0 <= p, p < self.n, self.at(p) == t)): ex.raise_('KeyError', t)
        return Sym(self.v(p), REAL)
    def py_len(self, ex): return Sym(self.n, INT)
class Times(Ext):
    def __init__(self, s): self.s = s
    def py_iter(self, ex): return self.s.seq(lambda j: Sym(self.s.at(j), REAL))
    def py_len(self, ex): return Sym(self.s.n, INT)
class Indexer(Ext):
    def py_getattr(self, ex, n):
        if n == 'series': return Builtin(n, lambda ex, a, k: Zeros())
        raise Unsupported('attribute %s of the indexer' % n)
def rlabels(ctx): return [l for l in (('gh', 'rdom'), ('gh', 'rval')) if l in ctx.labels]

class AddResult(Unit):
    """a series is written over the node's series, which starts with zeros"""
    name = 'AbstractAggregator._add_result'
    functions = (AG + 'AbstractAggregator._add_result',)
    assumes = ('Indexer.series gives a series of zeros (numpy.zeros)', 'a trigger yields at most one entry per time (C02: times are unique)', 'the entries are at times of the unified index (C17 MultiTriggerIndexer)')
    def setup(self, ex):
        def inv(ctx):
            if ctx.seq is None or ('gh', 'rval') not in ctx.labels: return []
            def f(c):
                t = z3.Real('it'); cur = z3.Select(c.cur(('gh', 'rval')).t, self.p); k = c.k
                return z3.ForAll([t], z3.Select(cur, t) == z3.If(z3.And(self.e.mem(t), self.e.pos(t) < k), self.e.v(self.e.pos(t)), z3.Select(self.base, t)), patterns=[z3.Select(cur, t)])
            def g(c):
                x = z3.Const('ix', S_N); cur = c.cur(('gh', 'rval')).t
                return z3.ForAll([x], z3.Implies(x != self.p, z3.Select(cur, x) == z3.Select(self.val0, x)), patterns=[z3.Select(cur, x)])
            def h(c): return c.cur(('gh', 'rdom')).t == self.dom1
            return [(('must', 'written'), f), (('must', 'others'), g)] + ([(('must', 'present'), h)] if ('gh', 'rdom') in ctx.labels else [])
        ex.templates.append(inv)
    def script(self, ex):
        ob = PyObj(ex, ex.src('trappy.stats.Aggregator', 'MultiTriggerAggregator'))
        dom0, val0 = ex.fresh_term(z3.ArraySort(S_N, B), 'dom'), ex.fresh_term(z3.ArraySort(S_N, ROW), 'val'); self.val0 = val0
        Store(ex, dom0, val0); ob.attrs.update(_result=Result(None), indexer=Indexer())
        p = ex.fresh(N, 'node'); self.p = p.t; self.e = e = entries(ex)
        had = z3.Select(dom0, p.t); self.dom1 = z3.Store(dom0, p.t, z3.BoolVal(True))
        base = ex.fresh_term(ROW, 'base'); ex.assume(base == z3.If(had, z3.Select(val0, p.t), z3.K(z3.RealSort(), z3.RealVal(0)))); self.base = base
        try: ex.call(ex.getattr(ob, '_add_result'), [p, e], {})
        except PyRaise as x: ex.prove('never fails (%s)' % x.exc.name, False); return
        t, o = ex.fresh(REAL, 't').t, ex.fresh(N, 'other').t; d1, v1 = ex.ghosts['rdom'].t, ex.ghosts['rval'].t
        ex.prove('the node has a series afterwards', z3.Select(d1, p.t))
        ex.prove('the series holds the entries at their times and is unchanged elsewhere (zero at first)', z3.Select(z3.Select(v1, p.t), t) == z3.If(e.mem(t), e.v(e.pos(t)), z3.Select(base, t)))
        ex.assume(o != p.t); ex.prove('other nodes are untouched', z3.And(z3.Select(d1, o) == z3.Select(dom0, o), z3.Select(v1, o) == z3.Select(val0, o)))
def entries(ex):
    n, at, v, pos = ex.fresh(INT, 'n').t, ex.fresh_fun('at', I, z3.RealSort()), ex.fresh_fun('value', I, z3.RealSort()), ex.fresh_fun('pos', z3.RealSort(), I)
    j = z3.Int('ej'); ex.assume(n >= 0); ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), pos(at(j)) == j), patterns=[at(j)]))
    e = Entries(n, at, v, pos); e.mem = lambda t: z3.And(0 <= pos(t), pos(t) < n, at(pos(t)) == t)
    return e

class TrigV(ExtU):
    def py_getattr(self, ex, n):
        if n == 'generate': return Builtin(n, lambda ex, a, k: Generated(self.t, a[0].t))
        if n == 'trace': return TraceX(self.t)
        if n == 'template': return TemplateX(self.t)
        raise Unsupported('attribute %s of a trigger' % n)
T = U('Trigger', TrigV); S_T = T.sort
over = z3.Function('series_over', S_T, S_N, ROW, ROW)     # _add_result of trigger.generate(node)
class Generated(Ext):
    def __init__(self, t, n): self.trig, self.node = t, n
class Base(Unit):
    """every trigger's series of every node is added, in the order of the triggers"""
    name = 'MultiTriggerAggregator._aggregate_base'
    functions = (AG + 'MultiTriggerAggregator._aggregate_base',)
    assumes = ('_add_result by its contract', 'Trigger.generate by its contract (C16)', 'Topology.flatten lists every node once (Topology lookups)')
    def setup(self, ex):
        def add(ex, a, k):
            ob, p, s = a
            if not isinstance(s, Generated): raise Unsupported('another series')
            ex.prove("a node gets its own series", s.node == p.t)
            d, v = ex.ghosts['rdom'].t, ex.ghosts['rval'].t
            old = ex.fresh(Scalar('ROW', ROW), 'old').t; ex.assume(old == z3.If(z3.Select(d, p.t), z3.Select(v, p.t), ZERO))
            ex.ghost_set('rdom', Sym(z3.Store(d, p.t, z3.BoolVal(True)), GD)); ex.ghost_set('rval', Sym(z3.Store(v, p.t, over(s.trig, s.node, old)), GV))
        ex.specs[AG + 'AbstractAggregator._add_result'] = add
        ex.specs[TOP + 'flatten'] = lambda ex, a, k: self.flat(ex)
        def inv(ctx):
            if ctx.seq is None or not rlabels(ctx): return []
            nodes = ctx.seq.inv is not None; outer = ex.loops[-1] if ex.loops else None
            if outer is not None: oseq, ok = outer.seq, outer.k
            x = z3.Const('ix', S_N)
            def f(c):
                d, v = c.cur(('gh', 'rdom')).t, c.cur(('gh', 'rval')).t; isn = z3.Select(self.nodes, x); k = c.k
                if nodes and outer is None:      # one node after the other
                    on, val = z3.And(self.K > 0, c.seq.inv.pos(x) < k), self.Bf(self.K, x)
                elif nodes:
                    p = c.seq.inv.pos(x); on = z3.Or(ok > 0, p < k); val = z3.If(p < k, self.Bf(ok + 1, x), self.Bf(ok, x))
                elif outer is None: on, val = k > 0, self.Bf(k, x)
                else:
                    p = oseq.inv.pos(x); on = z3.Or(z3.And(self.K > 0, p < ok), z3.And(p == ok, k > 0)); val = z3.If(p < ok, self.Bf(self.K, x), self.Bf(k, x))
                return z3.ForAll([x], z3.And(z3.Select(d, x) == z3.And(isn, on), z3.Implies(z3.And(isn, on), z3.Select(v, x) == val)), patterns=[z3.Select(d, x), z3.Select(v, x)])
            return [(('must', 'series so far', nodes, outer is None), f)]
        ex.templates.append(inv)
    def flat(self, ex):
        return ex.call(ex.lib_type(list), [VSet(self.nset.cell)], {}) if hasattr(ex, 'lib_type') else ex.lib['type.list'](ex, [self.nset], {})
    def script(self, ex):
        ob = PyObj(ex, ex.src('trappy.stats.Aggregator', 'MultiTriggerAggregator'))
        self.nset = ex.fresh(SetS(N), 'nodes'); self.nodes = self.nset.cell.comps[0]
        top = PyObj(ex, ex.src('trappy.stats.Topology', 'Topology')); top.attrs.update(_nodes=self.nset)
        tr = ex.fresh(ListS(T), 'triggers'); self.K, tarr = tr.cell.comps
        self.Bf = Bf = ex.fresh_fun('base', I, S_N, ROW); k, x = z3.Int('bk'), z3.Const('bx', S_N)
        assume_all(ex, [z3.ForAll([x], Bf(0, x) == ZERO, patterns=[Bf(0, x)]), z3.ForAll([k, x], z3.Implies(z3.And(0 <= k, k < self.K), Bf(k + 1, x) == over(z3.Select(tarr, k), x, Bf(k, x))), patterns=[Bf(k + 1, x)])])
        Store(ex, z3.K(S_N, z3.BoolVal(False)), ex.fresh_term(z3.ArraySort(S_N, ROW), 'val'))
        ob.attrs.update(_triggers=tr, topology=top, _result=Result(None), indexer=Indexer(), _aggregated=False)
        try: ex.call(ex.getattr(ob, '_aggregate_base'), [], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        q = ex.fresh(N, 'q').t; d, v = ex.ghosts['rdom'].t, ex.ghosts['rval'].t
        ex.assume(self.K > 0)
        ex.prove('exactly the nodes of the topology have a series', z3.Select(d, q) == z3.Select(self.nodes, q))
        ex.prove("a node's series has the entries of every trigger", z3.Implies(z3.Select(self.nodes, q), z3.Select(v, q) == Bf(self.K, q)))
        ex.prove('the base series are marked as present', tbool(ex.truth(ob.attrs['_aggregated'])))
ZERO = z3.K(z3.RealSort(), z3.RealVal(0))

class ObjV(ExtU):
    """a series or an aggregated value: an object with a value; own(o): made by the aggregation itself"""
    def py_eq(self, ex, o): return self.t == o.t if isinstance(o, ObjV) else False
    def py_binop(self, ex, op, o, rev):
        o = ex.force(o)
        if isinstance(o, (int, float)) and o == 0 and op == '+': return ex.pack_obj(val(self.t), True)
        if op != '+' or not isinstance(o, ObjV): raise Unsupported('operator %s on a series' % op)
        return ex.pack_obj(PLUS(val(o.t), val(self.t)) if rev else PLUS(val(self.t), val(o.t)), True)
    def py_augop(self, ex, op, o):
        ex.prove('stored series are not modified by an aggregation', own(self.t)); return self.py_binop(ex, op, o, False)
    def py_getattr(self, ex, n):
        if n == 'copy': return Builtin(n, lambda ex, a, k: ex.pack_obj(val(self.t), True))
        if n == 'add': return Builtin(n, lambda ex, a, k: self.py_binop(ex, '+', a[0], False))
        raise Unsupported('attribute %s of a series' % n)
O = U('ResultObject', ObjV); S_O = O.sort; S_V = sort('ResultValue')
val, own = z3.Function('value_of', S_O, S_V), z3.Function('is_fresh', S_O, B)
PLUS, AGGF, BASE = z3.Function('plus', S_V, S_V, S_V), z3.Function('aggfunc', S_V, S_V), z3.Function('base_series', S_N, S_V)
class Stored(Ext):
    """_result after _aggregate_base"""
    def __init__(self, u): self.u = u
    def py_getitem(self, ex, k):
        ex.prove('the base series are there before they are used', tbool(self.u.based > 0))
        o = ex.pack_obj(BASE(k.t), False); return o
    def py_setitem(self, ex, k, v): ex.prove('an aggregation does not change the base series', False)
class AggFunc(Ext):
    def __init__(self, u): self.u = u
    def py_call(self, ex, a, k):
        ex.prove('the aggregation function gets the series and the other arguments', tbool(len(a) == 1 and isinstance(a[0], ObjV) and set(k) == {'window'} and k['window'] is self.u.window))
        return ex.pack_obj(AGGF(val(a[0].t)), False)
class Aggregate(Unit):
    """one result per group of the level, in order: the sum over its nodes"""
    name = 'MultiTriggerAggregator.aggregate'
    functions = (AG + 'MultiTriggerAggregator.aggregate',)
    assumes = ('_aggregate_base and Topology.get_level by their contracts', 'every group has a node and every node of a group is in the topology', "adding two series makes a new one (pandas); the aggregation function may return its argument but does not modify it")
    def setup(self, ex):
        def pack_obj(v, fresh):
            o = ex.fresh(O, 'o'); ex.assume(val(o.t) == v); ex.assume(own(o.t) == z3.BoolVal(fresh)); return o
        ex.pack_obj = pack_obj
        def base(ex, a, k):
            ex.prove('the base series are computed once', tbool(self.based == 0)); self.based += 1; a[0].attrs['_aggregated'] = True
        ex.specs[AG + 'MultiTriggerAggregator._aggregate_base'] = base
        def get_level(ex, a, k):
            self.asked.append(a[1]); return self.groups
        ex.specs[TOP + 'get_level'] = get_level
        def inv(ctx):
            if ctx.seq is None: return []
            out = []
            for l in ctx.labels:
                if l[0] == 'c' and l[1] == 'list':
                    def f(c, l=l):
                        v = c.cur(l); j = z3.Int('ij')
                        if not isinstance(v, VList) or v.cell.items is not None or v.cell.shape != ListS(O): return z3.BoolVal(True)
                        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.cell.comps[0]), val(z3.Select(v.cell.comps[1], j)) == self.S(j, group_len(self.groups, j) - 1)), patterns=[z3.Select(v.cell.comps[1], j)])
                    if not ex.loops: out.append((('must', 'results', l), f))
                if l[0] == 'v' and ex.loops:
                    def g(c, l=l):
                        v = c.cur(l)
                        if isinstance(v, VOpt): return z3.If(tbool(v.isnone), c.k == 0, z3.And(c.k > 0, val(v.comps[0]) == self.S(ex.loops[0].k, c.k - 1)))
                        if not isinstance(v, ObjV): return z3.BoolVal(True)
                        return val(v.t) == self.S(ex.loops[0].k, c.k)
                    def h(c, l=l):
                        v = c.cur(l)
                        return own(v.t) if isinstance(v, ObjV) else z3.BoolVal(True)
                    out += [(('sum so far', l), g), (('fresh', l), h)]
            return out
        ex.templates.append(inv)
    def script(self, ex):
        ob = PyObj(ex, ex.src('trappy.stats.Aggregator', 'MultiTriggerAggregator')); self.asked = []
        self.groups = gr = ex.fresh(VALS, 'groups'); g, j = z3.Int('gl'), z3.Int('gj')
        ex.assume(z3.ForAll([g], group_len(gr, g) >= 1, patterns=[group_len(gr, g)]))
        top = PyObj(ex, ex.src('trappy.stats.Topology', 'Topology'))
        agg = ex.choose('an aggregation function is given'); again = ex.choose('not the first aggregation'); self.based = int(again); self.window = Opaque('window')
        F = (lambda v: AGGF(v)) if agg else (lambda v: v)
        self.S = S = ex.fresh_fun('sum', I, I, S_V)
        assume_all(ex, [z3.ForAll([g], S(g, 0) == F(BASE(group_at(gr, g, 0))), patterns=[S(g, 0)]),
                      z3.ForAll([g, j], z3.Implies(j >= 0, S(g, j + 1) == PLUS(S(g, j), F(BASE(group_at(gr, g, j + 1))))), patterns=[S(g, j + 1)])])
        ob.attrs.update(_aggregated=again, _result=Stored(self), _aggfunc=AggFunc(self) if agg else None, topology=top)
        kw = dict(window=self.window) if agg else {}
        lv = ex.fresh(STR, 'level') if ex.choose('a level is given') else None
        if lv is not None: kw['level'] = lv
        try: r = ex.call(ex.getattr(ob, 'aggregate'), [], kw)
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the groups of the given level (all by default) are aggregated', tbool(len(self.asked) == 1 and (self.asked[0] is lv if lv is not None else self.asked[0] == 'all')))
        cs = ex.list_comps(r, ListS(O)); q = ex.fresh(INT, 'q').t
        ex.prove('one result per group', cs[0] == gr.cell.comps[0])
        ex.assume(z3.And(0 <= q, q < cs[0])); ex.prove("a result is the sum over the group's nodes", val(z3.Select(cs[1], q)) == S(q, group_len(gr, q) - 1))

S_X = sort('TimeIndex'); xhas = z3.Function('index_has', S_X, z3.RealSort(), B); XSET = z3.Function('index_len', S_X, I)
class IndexV(ExtU):
    def py_getattr(self, ex, n):
        if n == 'values': return self
        if n == 'union': return Builtin(n, lambda ex, a, k: joined(ex, self, a[0]))
        raise Unsupported('attribute %s of an index' % n)
    def py_len(self, ex): return Sym(XSET(self.t), INT)
    def py_eq(self, ex, o): return self.t == o.t if isinstance(o, IndexV) else False
X = U('TimeIndex', IndexV)
def joined(ex, a, b):
    x = ex.fresh(X, 'union'); t = z3.Real('xt'); ex.assume(z3.ForAll([t], xhas(x.t, t) == z3.Or(xhas(a.t, t), xhas(b.t, t)), patterns=[xhas(x.t, t)])); return x
event_index = z3.Function('event_index', S_T, S_STR, S_X); event_name = z3.Function('trigger_event', S_T, S_STR)
class TraceX(Ext):
    def __init__(self, t): self.t = t
    def py_getattr_sym(self, ex, n, *d):
        ix = ex.wrap_index(event_index(self.t, n.t)); df = Opaque('table'); ev = Opaque('event')
        df.py_getattr = lambda ex, n: ix if n == 'index' else ex.raise_('AttributeError', n)
        ev.py_getattr = lambda ex, n: df if n == 'data_frame' else ex.raise_('AttributeError', n)
        return ev
class TemplateX(Ext):
    def __init__(self, t): self.t = t
    def py_getattr(self, ex, n):
        if n == 'name': return Sym(event_name(self.t), STR)
        raise Unsupported('attribute %s of an event class' % n)
class Unify(Unit):
    """the index of the results holds the times of every trigger's event, and series() is zero at each of them"""
    name = 'MultiTriggerIndexer'
    functions = ('trappy.stats.Indexer.MultiTriggerIndexer.__init__', 'trappy.stats.Indexer.MultiTriggerIndexer._unify', 'trappy.stats.Indexer.Indexer.__init__', 'trappy.stats.Indexer.Indexer.series')
    assumes = ('pandas.Index.union and numpy.unique keep the set of times', 'numpy.zeros')
    def setup(self, ex):
        ex.wrap_index = lambda t: X.unpack(ex, [t])
        def index(ex, a, k):
            if isinstance(a[0], IndexV): return a[0]
            if ex.need_items(ex.seqof(a[0])): raise Unsupported('index of values')
            x = ex.fresh(X, 'empty'); t = z3.Real('xt'); ex.assume(z3.ForAll([t], z3.Not(xhas(x.t, t)), patterns=[xhas(x.t, t)])); return x
        ex.specs['pandas.Index'] = index
        ex.specs['numpy.unique'] = lambda ex, a, k: a[0]
        ex.specs['numpy.zeros'] = lambda ex, a, k: ZerosOf(a[0])
        def series(ex, a, k):
            if not (isinstance(a[0], ZerosOf) and set(k) == {'index'}): raise Unsupported('series of values')
            self.made.append((a[0].n, k['index'])); return Opaque('series')
        ex.specs['pandas.Series'] = series
        def inv(ctx):
            if ctx.seq is None: return []
            out = []
            for l in ctx.labels:
                if l[0] == 'v':
                    def f(c, l=l):
                        v = c.cur(l); t = z3.Real('it')
                        return z3.ForAll([t], xhas(v.t, t) == self.H(c.k, t), patterns=[xhas(v.t, t)]) if isinstance(v, IndexV) else z3.BoolVal(True)
                    out.append((('times so far', l), f))
            return out
        ex.templates.append(inv)
    def script(self, ex):
        self.made = []; tr = ex.fresh(ListS(T), 'triggers'); n, arr = tr.cell.comps
        self.H = H = ex.fresh_fun('times', I, z3.RealSort(), B); k, t = z3.Int('hk'), z3.Real('ht')
        at = lambda k: event_index(z3.Select(arr, k), event_name(z3.Select(arr, k)))
        assume_all(ex, [z3.ForAll([t], z3.Not(H(0, t)), patterns=[H(0, t)]), z3.ForAll([k, t], z3.Implies(z3.And(0 <= k, k < n), H(k + 1, t) == z3.Or(H(k, t), xhas(at(k), t))), patterns=[H(k + 1, t)])])
        try:
            ob = ex.call(ex.src('trappy.stats.Indexer', 'MultiTriggerIndexer'), [tr], {}); ix = ob.attrs['index']; ex.call(ex.getattr(ob, 'series'), [], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        if not isinstance(ix, IndexV): raise Unsupported('index')
        q = ex.fresh(REAL, 'q').t
        ex.prove("the index has exactly the times of the triggers' events", xhas(ix.t, q) == H(n, q))
        ex.prove('a new series is zero at every time of the index', tbool(len(self.made) == 1 and self.made[0][1] is ix) if self.made[0][1] is not ix else z3.And(tbool(len(self.made) == 1), ex.term(self.made[0][0], INT) == XSET(ix.t)))
class ZerosOf(Ext):
    def __init__(self, n): self.n = n
UNITS = [AddToLevel(), Sharing(), Init(), Lookups(), AddResult(), Base(), Aggregate(), Unify()]
