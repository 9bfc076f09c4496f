"""C26: aligning two signals and correlating the groups of a level."""
from pyvc.unit import *
from pyvc.models import Opaque
from pyvc.frames import *

S_SM = sort('Sample'); NA, ZERO_ = z3.Const('missing_sample', S_SM), z3.Const('zero_sample', S_SM)
M = 'trappy.stats.Correlator.'
nz = lambda s: s != ZERO_          # missing samples count as non-zero
class Sig(Ext):
    """a signal: n samples"""
    def __init__(self, ex, n, arr): self.ex, self.n, self.arr = ex, n, arr
    def at(self, i): return z3.Select(self.arr, i)
    def py_len(self, ex): return Sym(self.n, INT)
    def py_getattr(self, ex, n):
        if n == 'shift': return Builtin(n, self.shift)
        if n == 'copy': return Builtin(n, lambda ex, a, k: Sig(ex, self.n, self.arr))
        if n == 'values': return self
        raise Unsupported('attribute %s of a signal' % n)
    def shift(self, ex, a, k):
        if len(a) > 1 or set(k) - {'periods'} or len(a) + len(k) != 1: raise Unsupported('shift')
        d = ex.term(a[0] if a else k['periods'], INT); i = z3.Int('si'); r = ex.fresh_term(z3.ArraySort(I, S_SM), 'shifted')
        ex.assume(z3.ForAll([i], z3.Select(r, i) == z3.If(z3.And(0 <= i - d, i - d < self.n), z3.Select(self.arr, i - d), NA), patterns=[z3.Select(r, i)]))
        return Sig(ex, self.n, r)
class NonZero(Ext):
    """numpy.flatnonzero: the positions of the non-zero samples, in order"""
    def __init__(self, ex, s):
        i = z3.Int('ni'); self.m, self.first, self.last = (ex.fresh(INT, x).t for x in ('nonzero', 'first', 'last'))
        for p, before in ((self.first, lambda i: i < self.first), (self.last, lambda i: i > self.last)):
            ex.assume(z3.Implies(self.m > 0, z3.And(0 <= p, p < s.n, nz(s.at(p)))))
            ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n, z3.Or(self.m == 0, before(i))), z3.Not(nz(s.at(i)))), patterns=[s.at(i)]))
        ex.assume(self.m >= 0)
    def py_len(self, ex): return Sym(self.m, INT)
    def py_getattr(self, ex, n):
        if n == 'size': return Sym(self.m, INT)
        if n in ('min', 'max'): return Builtin(n, lambda ex, a, k: self.py_getitem(ex, 0 if n == 'min' else -1))
        raise Unsupported('attribute %s of an array' % n)
    def py_getitem(self, ex, k):
        k = ex.force(k)
        if k not in (0, -1) or isinstance(k, Sym): raise Unsupported('subscript %r of an array' % (k,))
        if not ex.decide(self.m > 0): ex.raise_('IndexError', 'index out of bounds')
        return Sym(self.first if k == 0 else self.last, INT)
def signals(ex):
    n = ex.fresh(INT, 'samples').t; ex.assume(n >= 0); A = z3.ArraySort(I, S_SM)
    return n, Sig(ex, n, ex.fresh_term(A, 'x')), Sig(ex, n, ex.fresh_term(A, 'y'))
def shifted(s, d, i): return z3.If(z3.And(0 <= i - d, i - d < s.n), s.at(i - d), NA)
class Align(Unit):
    """the distance of the first (last) non-zero samples, and the pair with the earlier signal shifted by it"""
    name = 'align'
    functions = (M + 'align', M + 'shift_series')
    assumes = ('numpy.flatnonzero gives the positions of the non-zero samples in order; Series.shift(k) moves every sample by k positions and leaves missing samples', 'both signals are on the same index (they are resampled to one)')
    def setup(self, ex):
        ex.axioms.append(NA != ZERO_)
        ex.specs['numpy.flatnonzero'] = lambda ex, a, k: NonZero(ex, a[0])
    def script(self, ex):
        n, x, y = signals(ex); mode = 'front' if ex.choose('front') else 'back'
        kw = {'mode': mode} if mode == 'back' or ex.choose('mode given') else {}
        try: r = ex.call(ex.src('trappy.stats.Correlator', 'align'), [x, y], kw)
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        a, b, d = r; d = ex.term(d, INT); i, px, py = (ex.fresh(INT, v).t for v in ('i', 'px', 'py'))
        j = z3.Int('j'); edge = lambda s, p: z3.And(0 <= p, p < n, nz(s.at(p)), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, j < p if mode == 'front' else j > p), z3.Not(nz(s.at(j)))), patterns=[s.at(j)]))
        isin = z3.And(0 <= i, i < n)
        ex.prove('without a non-zero sample nothing is shifted', z3.Implies(z3.Or(*[z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Not(nz(s.at(j)))), patterns=[s.at(j)]) for s in (x, y)]), z3.And(d == 0, z3.Implies(isin, z3.And(a.at(i) == x.at(i), b.at(i) == y.at(i))))))
        ex.assume(z3.And(edge(x, px), edge(y, py)))
        ex.prove('the distance is that of the two edges', d == px - py)
        ex.prove('the samples of the first signal move by the distance or stay', z3.Implies(isin, a.at(i) == shifted(x, z3.If(d < 0, -d, 0), i)))
        ex.prove('the samples of the second signal move by the distance or stay', z3.Implies(isin, b.at(i) == shifted(y, z3.If(d > 0, d, 0), i)))
        top = z3.If(px > py, px, py); ex.prove('the two edges are at the same position', z3.And(a.at(top) == x.at(px), b.at(top) == y.at(py)))
class Shift(Unit):
    name = 'shift_series'
    functions = (M + 'shift_series',)
    def setup(self, ex): pass
    def script(self, ex):
        n, x, y = signals(ex); s = ex.fresh(INT, 'shift')
        try: a, b = ex.call(ex.src('trappy.stats.Correlator', 'shift_series'), [x, y, s], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        i = ex.fresh(INT, 'i').t; isin = z3.And(0 <= i, i < n); d = s.t
        ex.prove('a positive shift moves the second signal, a negative one the first', z3.Implies(isin, z3.And(a.at(i) == shifted(x, z3.If(d < 0, -d, 0), i), b.at(i) == shifted(y, z3.If(d > 0, d, 0), i))))

class GSig(ExtU):
    """the signal of a group"""
    def py_eqop(self, ex, op, o):
        if op != '!=' or o != 0: raise Unsupported('comparison of a signal')
        return NzMask(self.t)
    def py_getitem(self, ex, k):
        if not isinstance(k, NzMask): raise Unsupported('subscript of a signal')
        ex.prove("a signal is filtered by its own samples", k.t == self.t); return NzPart(self.t)
    def py_getattr(self, ex, n):
        if n == 'corr': return Builtin(n, lambda ex, a, k: CORR.unpack(ex, [plain(self.t, a[0].t)]))
        raise Unsupported('attribute %s of a signal' % n)
    def py_eq(self, ex, o): return self.t == o.t if isinstance(o, GSig) else False
class NzMask(Ext):
    def __init__(self, t): self.t = t
    def py_getattr(self, ex, n):
        if n == 'sum': return Builtin(n, lambda ex, a, k: Sym(count(self.t), INT))
        raise Unsupported('attribute %s of a mask' % n)
class NzPart(Ext):
    def __init__(self, t): self.t = t
    def py_len(self, ex): return Sym(count(self.t), INT)
class CorrV(ExtU):
    """a correlation: a number, or undefined"""
    def py_binop(self, ex, op, o, rev):
        ex.prove('an undefined correlation is not added', z3.Not(undef(self.t))); me = Sym(number(self.t), REAL)
        return ex.binop(op, o, me) if rev else ex.binop(op, me, o)
    def py_eq(self, ex, o): return self.t == o.t if isinstance(o, CorrV) else False
    def py_cmp(self, ex, op, o, rev):
        f = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}[op]
        d, v = (z3.Not(undef(o.t)), number(o.t)) if isinstance(o, CorrV) else (z3.BoolVal(True), ex.term(o, REAL))
        return z3.And(z3.Not(undef(self.t)), d, f(v, number(self.t)) if rev else f(number(self.t), v))
SIG, CORR = U('GroupSignal', GSig), U('Correlation', CorrV); S_G, S_C = SIG.sort, CORR.sort; R = z3.RealSort()
count, undef, number = z3.Function('nonzero_samples', S_G, I), z3.Function('is_undefined', S_C, B), z3.Function('number', S_C, R)
corr, plain = z3.Function('correlation', S_G, S_G, S_C), z3.Function('pandas_corr', S_G, S_G, S_C)
resampled = z3.Function('resampled', S_G, S_G); SX, SY = (z3.Function(n, S_G, S_G, I, S_G) for n in ('first_shifted', 'second_shifted'))
MUL, DIV = z3.Function('times', R, R, R), z3.Function('divided', R, R, R)
def products(ex):
    """products of two unknowns are left uninterpreted, with the laws a reordering of factors needs"""
    ex.nonlin = lambda op, x, y: (MUL if op == '*' else DIV)(x, y); a, b, c = z3.Reals('ma mb mc')
    for f in [z3.ForAll([a, b], MUL(a, b) == MUL(b, a), patterns=[MUL(a, b)]), z3.ForAll([a, b], z3.Implies(z3.And(a > 0, b > 0), MUL(a, b) > 0), patterns=[MUL(a, b)]),
              z3.ForAll([a, b, c], z3.Implies(z3.And(b > 0, c > 0), DIV(a, MUL(b, c)) == DIV(DIV(a, b), c)), patterns=[DIV(a, MUL(b, c))]),
              z3.ForAll([a, b, c], DIV(DIV(a, b), c) == DIV(DIV(a, c), b), patterns=[DIV(DIV(a, b), c)]), z3.ForAll([a, b, c], MUL(DIV(a, b), c) == DIV(MUL(a, c), b), patterns=[MUL(DIV(a, b), c)])]: ex.assume(f)
class Aggs(Ext):
    def __init__(self, u, k): self.u, self.k = u, k
    def py_getattr(self, ex, n):
        if n == 'aggregate': return Builtin(n, self.agg)
        raise Unsupported('attribute %s of an aggregator' % n)
    def agg(self, ex, a, k):
        ex.prove('the groups of the given level are correlated', tbool(not a and k.get('level') is self.u.level and set(k) == {'level', 'window'})); return self.u.res[self.k]
class Correlate(Unit):
    """the sum of the group correlations, each weighted by its share of the non-zero samples"""
    name = 'Correlator.correlate'
    functions = (M + 'Correlator.correlate',)
    assumes = ('aggregate by its contract (C17): one signal per group for both sides', 'shift_series by its contract; _correlate by its contract', 'there is a non-zero sample in some group')
    budget = 200
    def setup(self, ex):
        S = ex.specs
        S[M + 'Correlator._resample'] = lambda ex, a, k: SIG.unpack(ex, [resampled(a[1].t)])
        def shift(ex, a, k):
            ex.prove("the groups are shifted by the level's distance", ex.term(a[2], INT) == self.shift)
            return tuple(SIG.unpack(ex, [f(a[0].t, a[1].t, self.shift)]) for f in (SX, SY))
        S[M + 'shift_series'] = shift
        S[M + 'Correlator._correlate'] = lambda ex, a, k: CORR.unpack(ex, [corr(a[1].t, a[2].t)])
        S['math.isnan'] = S['numpy.isnan'] = lambda ex, a, k: Sym(undef(a[0].t), BOOL)
        ex.lib = dict(ex.lib); old = ex.lib['builtins.sum']
        def total(ex, a, k):
            if len(a) != 1 or k or not isinstance(a[0], VList): return old(ex, a, k)
            n, arr = ex.list_comps(a[0], ListS(INT)); q = ex.fresh(INT, 'q').t
            ex.prove('the weights are the non-zero samples of the groups', z3.And(n == self.n, z3.Implies(z3.And(0 <= q, q < n), z3.Select(arr, q) == self.w(q)))); return Sym(self.W, INT)
        ex.lib['builtins.sum'] = total
        def inv(ctx):
            if ctx.seq is None: return []
            out = []; j = z3.Int('ij')
            for l in ctx.labels:
                if l[0] == 'c' and l[1] == 'list':
                    def f(c, l=l):
                        v = c.cur(l)
                        if not isinstance(v, VList) or v.cell.items is not None or v.cell.shape not in (ListS(CORR), ListS(INT)): return z3.BoolVal(True)
                        n, a = v.cell.comps; t = self.c if v.cell.shape == ListS(CORR) else self.w
                        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(a, j) == t(j)), patterns=[z3.Select(a, j)])
                    out.append((('must', 'results so far', l), f))
                if l[0] == 'v':
                    def g(c, l=l):
                        v = c.cur(l)
                        return ex.term(v, REAL) == self.T(c.k) if is_num(v) else z3.BoolVal(True)
                    out.append((('total so far', l), g))
            return out
        ex.templates.append(inv)
    def script(self, ex):
        products(ex)
        n = self.n = ex.fresh(INT, 'groups').t; ex.assume(n >= 0); A = z3.ArraySort(I, S_G); ra = [ex.fresh_term(A, 'result_1'), ex.fresh_term(A, 'result_2')]
        self.res = [ex.symlist([n, a], SIG) for a in ra]; self.shift = ex.fresh(INT, 'shift').t; self.level = ex.fresh(STR, 'level'); re = ex.choose('resample')
        sig = lambda k, j: resampled(z3.Select(ra[k], j)) if re else z3.Select(ra[k], j)
        x, y = (lambda j: SX(sig(0, j), sig(1, j), self.shift)), (lambda j: SY(sig(0, j), sig(1, j), self.shift))
        self.c, self.w, self.T = ex.fresh_fun('group_correlation', I, S_C), ex.fresh_fun('weight', I, I), ex.fresh_fun('weighted', I, R); self.W = ex.fresh(INT, 'all_weights').t; k, g = z3.Int('ck'), z3.Const('cg', S_G)
        W = z3.ToReal(self.W); ex.assume(self.W > 0)
        ex.assume(z3.ForAll([g], count(g) >= 0, patterns=[count(g)]))
        ex.assume(z3.ForAll([k], self.c(k) == corr(x(k), y(k)), patterns=[self.c(k)])); ex.assume(z3.ForAll([k], self.w(k) == count(x(k)) + count(y(k)), patterns=[self.w(k)]))
        ex.assume(self.T(0) == 0); ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), self.T(k + 1) == self.T(k) + z3.If(undef(self.c(k)), 0, DIV(MUL(z3.ToReal(self.w(k)), number(self.c(k))), W))), patterns=[self.T(k + 1)]))
        ob = PyObj(ex, ex.src('trappy.stats.Correlator', 'Correlator'))
        ob.attrs.update(_first_agg=Aggs(self, 0), _second_agg=Aggs(self, 1), _shift=Sym(self.shift, INT), _agg_kwargs=ex.mkdict([('window', Opaque('window'))]))
        try: r = ex.call(ex.getattr(ob, 'correlate'), [self.level], {} if re and ex.choose('default') else {'resample': re})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        out, tot = r; m, a = ex.list_comps(out, ListS(CORR)); q = ex.fresh(INT, 'q').t
        ex.prove('one correlation per group', m == n); ex.prove("a group's correlation is that of its shifted signals", z3.Implies(z3.And(0 <= q, q < n), z3.Select(a, q) == self.c(q)))
        ex.prove('the total is the weighted sum of the defined correlations', ex.term(tot, REAL) == self.T(n))
class GroupCorr(Unit):
    name = 'Correlator._correlate'
    functions = (M + 'Correlator._correlate',)
    assumes = ('pandas Series.corr',)
    def setup(self, ex): pass
    def script(self, ex):
        x, y = ex.fresh(SIG, 'x'), ex.fresh(SIG, 'y'); ob = PyObj(ex, ex.src('trappy.stats.Correlator', 'Correlator')); own = ex.choose('own function')
        ob.attrs['_corrfunc'] = CorrFunc() if own else None
        try: r = ex.call(ex.getattr(ob, '_correlate'), [x, y], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the correlation is that of the given function, or of pandas', r.t == (corr if own else plain)(x.t, y.t))
class CorrFunc(Ext):
    def py_call(self, ex, a, k): return CORR.unpack(ex, [corr(a[0].t, a[1].t)])
    def py_eq(self, ex, o): return o is self
# ---- the resampling and the choice of the shift ----
class Idx(ExtU):
    """an index of instants"""
    def py_getattr(self, ex, n):
        if n == 'values': return IdxValues(self)
        if n == 'union': return Builtin(n, lambda ex, a, k: IDX.unpack(ex, [union(self.t, a[0].t)]))
        raise Unsupported('attribute %s of an index' % n)
    def py_getitem(self, ex, k): return IdxValues(self).py_getitem(ex, k)
    def py_eq(self, ex, o): return self.t == o.t if isinstance(o, Idx) else False
class IdxValues(Ext):
    def __init__(self, x): self.x = x
    def py_getitem(self, ex, k):
        k = ex.force(k)
        if isinstance(k, Sym) or k not in (0, -1): raise Unsupported('subscript of the values of an index')
        return Sym((first_at if k == 0 else last_at)(self.x.t), REAL)
IDX = U('IndexOfInstants', Idx); S_X = IDX.sort
union, first_at, last_at = z3.Function('union_of_indexes', S_X, S_X, S_X), z3.Function('first_instant', S_X, R), z3.Function('last_instant', S_X, R)
class Grid(Ext):
    def __init__(self, a, b, d): self.a, self.b, self.d = a, b, d
class Held(Ext):
    def __init__(self, g): self.g = g
class RawSig(Ext):
    def py_getattr(self, ex, n):
        if n == 'reindex': return Builtin(n, self.reindex)
        raise Unsupported('attribute %s of a signal to be resampled' % n)
    def reindex(self, ex, a, k):
        g = a[0] if a else k.get('index')
        if len(a) > 1 or set(k) - {'index', 'method'} or (a and 'index' in k) or not isinstance(g, Grid): raise Unsupported('reindex')
        ex.prove('the latest sample is taken', tbool(k.get('method') in ('pad', 'ffill'))); return Held(g)
class Resample(Unit):
    name = 'Correlator._resample'
    functions = (M + 'Correlator._resample', 'trappy.stats.Indexer.Indexer.get_uniform')
    assumes = ('numpy.arange(a, b, d) gives the instants a, a + d, ... before b', 'Series.reindex with method pad takes the latest sample at or before each instant')
    def setup(self, ex):
        def arange(ex, a, k):
            if len(a) != 3 or k: raise Unsupported('numpy.arange')
            return Grid(*[ex.term(x, REAL) for x in a])
        ex.specs['numpy.arange'] = arange
    def script(self, ex):
        x, delta = ex.fresh(IDX, 'index'), ex.fresh(REAL, 'delta'); ob = PyObj(ex, ex.src('trappy.stats.Correlator', 'Correlator')); ix = PyObj(ex, ex.src('trappy.stats.Indexer', 'Indexer')); ix.attrs['index'] = x; ob.attrs['indexer'] = ix
        given = ex.choose('delta given'); ex.assume(delta.t > 0)
        try: r = ex.call(ex.getattr(ob, '_resample'), [RawSig()] + ([delta] if given else []), {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ok = isinstance(r, Held); ex.prove('the signal is resampled', tbool(ok))
        if not ok: return
        ex.prove('the instants begin with the first one', r.g.a == first_at(x.t)); ex.prove('the instants end before the last one', r.g.b == last_at(x.t))
        want = delta.t if given else ex.term(ex.src('trappy.stats.StatConf', 'DELTA_DEFAULT'), REAL)
        ex.prove('the instants are one delta apart', r.g.d == want)
class Unified(Unit):
    name = 'get_unified_indexer'
    functions = ('trappy.stats.Indexer.get_unified_indexer', 'trappy.stats.Indexer.Indexer.__init__', M + 'Correlator.__init__')
    assumes = ('pandas Index.union holds the instants of both',)
    def setup(self, ex): ex.specs[M + 'Correlator._align_top_level'] = lambda ex, a, k: self.shift
    def script(self, ex):
        xs = [ex.fresh(IDX, 'index_%d' % i) for i in (1, 2)]; i = z3.Const('ua', S_X); j = z3.Const('ub', S_X)
        ex.assume(z3.ForAll([i, j], union(i, j) == union(j, i), patterns=[union(i, j)]))
        def agg(x):
            ix = PyObj(ex, ex.src('trappy.stats.Indexer', 'Indexer')); ix.attrs['index'] = x; a = PyObj(ex, ex.src('trappy.stats.Aggregator', 'AbstractAggregator')); a.attrs['indexer'] = ix; return a
        self.shift = ex.fresh(INT, 'shift'); kw = {'window': Opaque('window')}; own = ex.choose('own function'); f = CorrFunc(); ags = [agg(x) for x in xs]
        try: ob = ex.call(ex.src('trappy.stats.Correlator', 'Correlator'), list(ags), dict(kw, corrfunc=f) if own else dict(kw))
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        at = ob.attrs; ex.prove("the two sides are kept", tbool(at.get('_first_agg') is ags[0] and at.get('_second_agg') is ags[1]))
        ex.prove('the correlation function is kept', tbool(at.get('_corrfunc') is (f if own else None)))
        ex.prove('the instants are those of both sides', ex.getattr(at['indexer'], 'index').t == union(xs[0].t, xs[1].t)); ex.prove('the shift is that of the top level', ex.term(at['_shift'], INT) == self.shift.t)
class AlignTop(Unit):
    """the shift is that of the better correlated alignment"""
    name = 'Correlator._align_top_level'
    functions = (M + 'Correlator._align_top_level',)
    assumes = ('aggregate by its contract (C17); align, _correlate and _resample by their contracts',)
    def setup(self, ex):
        S = ex.specs
        S[M + 'Correlator._resample'] = lambda ex, a, k: SIG.unpack(ex, [resampled(one_of(a, k, 'series').t)])
        def align(ex, a, k):
            m = k['mode'] if 'mode' in k else a[2] if len(a) > 2 else 'front'; m = ex.force(m)
            if m not in ('front', 'back') or set(k) - {'mode'}: raise Unsupported('align %r' % (m,))
            x, y, d = al[m]; return (SIG.unpack(ex, [x(a[0].t, a[1].t)]), SIG.unpack(ex, [y(a[0].t, a[1].t)]), Sym(d(a[0].t, a[1].t), INT))
        def one_of(a, k, n):
            if len(a) != 2 or k: raise Unsupported('delta given')
            return a[1]
        S[M + 'align'] = align
        S[M + 'Correlator._correlate'] = lambda ex, a, k: CORR.unpack(ex, [corr(a[1].t, a[2].t)])
        S['math.isnan'] = S['numpy.isnan'] = lambda ex, a, k: Sym(undef(a[0].t), BOOL)
    def script(self, ex):
        raw = [ex.fresh(SIG, 'top_%d' % i) for i in (1, 2)]
        class Top(Ext):
            def __init__(self, k): self.k = k
            def py_getattr(self, ex, n):
                if n != 'aggregate': raise Unsupported('attribute %s of an aggregator' % n)
                def agg(ex, a, k):
                    ex.prove('the top level is aligned', tbool(not a and k.get('level') == 'all' and set(k) <= {'level'})); return ex.mklist([raw[self.k]])
                return Builtin(n, agg)
        ob = PyObj(ex, ex.src('trappy.stats.Correlator', 'Correlator')); ob.attrs.update(_first_agg=Top(0), _second_agg=Top(1), _agg_kwargs=ex.mkdict([]))
        try: r = ex.call(ex.getattr(ob, '_align_top_level'), [], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        x, y = (resampled(s.t) for s in raw); c = {m: corr(al[m][0](x, y), al[m][1](x, y)) for m in al}; v = {m: z3.If(undef(c[m]), 0, number(c[m])) for m in al}
        ex.prove('the shift is that of the better alignment', ex.term(r, INT) == z3.If(v['front'] >= v['back'], al['front'][2](x, y), al['back'][2](x, y)))
al = {m: (z3.Function(m + '_first', S_G, S_G, S_G), z3.Function(m + '_second', S_G, S_G, S_G), z3.Function(m + '_distance', S_G, S_G, I)) for m in ('front', 'back')}
UNITS = [Align(), Shift(), Correlate(), GroupCorr(), Resample(), Unified(), AlignTop()]
