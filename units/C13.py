"""C13: handle_duplicate_index gives strictly increasing times, moves no row and stays between the neighbours."""
from pyvc.unit import *

class Vals(Ext):
    """index.values: the memory of the index itself (writes are seen through the index)"""
    def __init__(self, data): self.data = data
    def py_getitem(self, ex, k):
        if isinstance(k, slice): raise Unsupported('slice of the values')
        i = ex.list_index(self.data.lst, k); return ex.lget(self.data.lst, ex.term(i, INT))
    def py_setitem(self, ex, k, v):
        i = ex.term(ex.list_index(self.data.lst, k), INT); c = self.data.lst.cell
        c.setc(ex, [c.comps[0], z3.Store(c.comps[1], i, ex.term(v, REAL))])
    def py_len(self, ex): return ex.length(self.data.lst)
    def py_iter(self, ex): return ex.seqof(self.data.lst)
    def py_getattr(self, ex, n):
        if n in ('size',): return ex.length(self.data.lst)
        if n == 'copy': return Builtin(n, lambda ex, a, k: CopyVals(ex, self.data))
        return super().py_getattr(ex, n)
class CopyVals(Ext):
    def __init__(self, ex, data): self.lst = ex.symlist(data.lst.cell.comps, REAL)
    py_getitem = Vals.py_getitem; py_setitem = Vals.py_setitem; py_len = Vals.py_len
    @property
    def data(self): return self
class Mask(Ext):
    def __init__(self, data): self.data = data
class DupVals(Ext):
    def __init__(self, u): self.u = u
    def py_getattr(self, ex, n):
        if n == 'unique': return Builtin(n, lambda ex, a, k: self.u.dups(ex))
        return super().py_getattr(ex, n)
class Index(Ext):
    def __init__(self, data): self.data = data
    def py_getattr(self, ex, n):
        if n == 'values': return Vals(self.data)
        if n == 'duplicated':
            def dup(ex, a, k):
                if a or k: raise Unsupported('duplicated with arguments')
                ex.prove('duplicates are looked for in the original times', self.data.lst.cell.comps[1] == self.data.u.T0)
                return Mask(self.data)
            return Builtin(n, dup)
        if n == 'searchsorted': return Builtin(n, self.search)
        return super().py_getattr(ex, n)
    def py_getitem(self, ex, k):
        if isinstance(k, Mask): return DupVals(self.data.u)
        return Vals(self.data).py_getitem(ex, k)
    def py_len(self, ex): return ex.length(self.data.lst)
    def search(self, ex, a, k):
        side = k.get('side', a[1] if len(a) > 1 else 'left')
        v = ex.term(a[0], REAL); n, A = self.data.lst.cell.comps
        i, j = z3.Ints('si sj')
        ex.prove('searchsorted is used on sorted times', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Select(A, i) <= z3.Select(A, j)), patterns=[z3.MultiPattern(z3.Select(A, i), z3.Select(A, j))]))
        p = ex.fresh(INT, 'p'); ex.assume(z3.And(0 <= p.t, p.t <= n))
        below, above = (lambda x: x < v, lambda x: x >= v) if side == 'left' else (lambda x: x <= v, lambda x: x > v)
        if side not in ('left', 'right'): ex.raise_('ValueError')
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.If(i < p.t, below(z3.Select(A, i)), above(z3.Select(A, i)))), patterns=[z3.Select(A, i)]))
        # instances at the boundary
        ex.assume(z3.Implies(p.t < n, above(z3.Select(A, p.t)))); ex.assume(z3.Implies(p.t > 0, below(z3.Select(A, p.t - 1))))
        return p
class Data(Ext):
    def __init__(self, u, lst): self.u, self.lst = u, lst
    def py_contains(self, ex, v):
        if v != '__line': raise Unsupported('column ' + repr(v))
        return self.u.hasline
    def py_getattr(self, ex, n):
        if n == 'index': return Index(self)
        if n == 'sort_values': return Builtin(n, self.sort)
        if n == 'reindex': return Builtin(n, self.reindex)
        return super().py_getattr(ex, n)
    def py_setattr(self, ex, n, v):
        if n == 'index' and isinstance(v, CopyVals): self.lst = v.lst; return
        if n == 'index' and isinstance(v, Vals) and v.data is self: return
        raise Unsupported('assignment of ' + n)
    def sort(self, ex, a, k):
        by = a[0] if a else k.get('by')
        if not (isinstance(by, VList) and by.cell.items == ['Time', '__line'] and k.get('inplace') is True and set(k) <= {'by', 'inplace'}): raise Unsupported('sort_values arguments')
        self.u.sorted = True; ex.assume(self.u.sortedf(ex)); return None
    def reindex(self, ex, a, k):
        v = a[0]
        if isinstance(v, Vals) and v.data is self: return self       # the labels are those the data already has
        if isinstance(v, CopyVals):
            i, j = z3.Ints('ri rj'); n, A = self.lst.cell.comps
            if ex.decide(z3.Exists([i], z3.And(0 <= i, i + 1 < n, z3.Select(A, i) == z3.Select(A, i + 1)))): ex.raise_('ValueError', 'cannot reindex on an axis with duplicate labels')
        raise Unsupported('reindex with other labels')

class Dedup(Unit):
    name = 'handle_duplicate_index'
    functions = ('trappy.utils.handle_duplicate_index',)
    assumes = ('index.values is the memory of the index, so a write to it changes the index; reindexing data with the labels it already has returns the same rows',
               'index[index.duplicated()].unique() is the ascending list of the values that occur more than once in a sorted index; searchsorted returns the boundary in a sorted array; sort_values sorts by time and line',
               'times are exact reals', 'max_delta > 0; without line numbers the data is sorted by time')
    budget = 400; split = 3
    def setup(self, ex): ex.templates.append(self.inv)
    def sortedf(self, ex):
        i, j = z3.Ints('ti tj'); T = self.T0
        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.n), z3.Select(T, i) <= z3.Select(T, j)), patterns=[z3.MultiPattern(z3.Select(T, i), z3.Select(T, j))])
    def dups(self, ex):
        m = ex.fresh(ListS(REAL), 'dups'); self.m, self.D = m.cell.comps
        i, q, p = z3.Ints('ui uq up'); D, T = self.D, self.T0; n = self.n
        F, L, dq, pos = self.F, self.L, self.dq, self.pos
        rng = lambda x: z3.And(0 <= x, x < n)
        ex.assume(z3.ForAll([q, p], z3.Implies(z3.And(0 <= q, q < p, p < self.m), z3.Select(D, q) < z3.Select(D, p)), patterns=[z3.MultiPattern(z3.Select(D, q), z3.Select(D, p))]))
        ex.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < self.m), z3.And(rng(pos(q)), F(pos(q)) == pos(q), L(pos(q)) > pos(q), z3.Select(D, q) == z3.Select(T, pos(q)), dq(pos(q)) == q)), patterns=[z3.Select(D, q)]))
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(rng(i), F(i) < L(i)), z3.And(0 <= dq(i), dq(i) < self.m, z3.Select(D, dq(i)) == z3.Select(T, i))), patterns=[dq(i)]))
        return m
    def inv(self, ctx):
        ex = ctx.ex; out = []
        if self.D is None: return []
        i, j = z3.Ints('vi vj'); n, T0 = self.n, self.T0; T = lambda x: z3.Select(T0, x); F, L, dq = self.F, self.L, self.dq
        lab = self.data.lst.cell.label
        if lab not in ctx.labels: return []
        rng = lambda x: z3.And(0 <= x, x < n)
        def A_(c): return c.cur(lab).cell.comps[1]
        if ctx.seq is not None:
            def shape(c):
                A = A_(c); S = lambda x: z3.Select(A, x)
                proc = z3.And(i > F(i), dq(i) < c.k)
                return z3.ForAll([i], z3.Implies(rng(i), z3.If(proc, z3.And(S(i) > T(i), z3.Implies(L(i) + 1 < n, S(i) < T(L(i) + 1))), S(i) == T(i))), patterns=[S(i)])
            def steps(c):
                A = A_(c); S = lambda x: z3.Select(A, x)
                return z3.ForAll([i, j], z3.Implies(z3.And(j == i + 1, 0 <= i, j < n, j > F(j), dq(j) < c.k), z3.And(S(i) < S(j), S(j) <= S(i) + self.md)), patterns=[z3.MultiPattern(S(i), S(j))])
            def srt(c):
                A = A_(c); S = lambda x: z3.Select(A, x)
                return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), S(i) <= S(j)), patterns=[z3.MultiPattern(S(i), S(j))])
            out += [(('must', 'processed runs are spread, the rest is unchanged'), shape), (('must', 'steps inside processed runs'), steps), (('must', 'times stay sorted'), srt), (('must', 'length'), lambda c: c.cur(lab).cell.comps[0] == n)]
            return out
        ints = [l for l in ctx.labels if ctx.info.mod[l] == INT]; reals = [l for l in ctx.labels if ctx.info.mod[l] == REAL]
        for xl in ints:
            for yl in reals:
                x0, s = ex.term(ctx.entry[xl], INT), ex.term(ctx.entry[yl], REAL); E = ctx.entry[lab].cell.comps[1]
                l0 = x0 - 1; r = L(l0); dup = z3.Select(E, l0)
                def g(c, xl=xl, yl=yl, x0=x0, s=s, E=E, l0=l0, r=r, dup=dup):
                    x, y = ex.term(c.cur(xl), INT), ex.term(c.cur(yl), REAL); A = A_(c); S = lambda t: z3.Select(A, t)
                    return z3.And(x0 <= x, x <= r + 1, y >= s, S(x - 1) + s == dup + y,
                        z3.Implies(r + 1 < n, z3.And(y + s * z3.ToReal(r + 1 - x) <= z3.Select(E, r + 1) - dup, z3.Implies(x == r + 1, y <= z3.Select(E, r + 1) - dup))),
                        z3.ForAll([i], z3.Implies(z3.Or(i < x0, i >= x), S(i) == z3.Select(E, i)), patterns=[S(i)]),
                        z3.ForAll([i], z3.Implies(z3.And(x0 <= i, i < x), z3.And(S(i) > dup, S(i) <= S(x - 1))), patterns=[S(i)]),
                        z3.ForAll([i, j], z3.Implies(z3.And(l0 <= i, j == i + 1, j < x), S(j) == S(i) + s), patterns=[z3.MultiPattern(S(i), S(j))]),
                        z3.ForAll([i, j], z3.Implies(z3.And(l0 <= i, i < j, j < x), S(i) < S(j)), patterns=[z3.MultiPattern(S(i), S(j))]))
                out.append((('must', 'the run so far', xl, yl), g))
        out.append((('must', 'length'), lambda c: c.cur(lab).cell.comps[0] == n))
        return out
    def script(self, ex):
        f = ex.src('trappy.utils', 'handle_duplicate_index')
        lst = ex.fresh(ListS(REAL), 'times'); self.n, self.T0 = lst.cell.comps; self.D = None
        ex.assume(self.n >= 1)
        self.hasline = ex.fresh(BOOL, 'hasline').t; self.sorted = False
        self.data = d = Data(self, lst)
        n, T0 = self.n, self.T0; T = lambda x: z3.Select(T0, x)
        self.F, self.L, self.dq, self.pos = [z3.Function(x, I, I) for x in ('first', 'last', 'dq', 'pos')]
        F, L = self.F, self.L; i, j = z3.Ints('fi fj'); rng = lambda x: z3.And(0 <= x, x < n)
        # first and last position of the run of equal times that i belongs to (definitions, for sorted times)
        ex.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(0 <= F(i), F(i) <= i, i <= L(i), L(i) < n, T(F(i)) == T(i), T(L(i)) == T(i), F(F(i)) == F(i), L(F(i)) == L(i))), patterns=[T(i), F(i), L(i), self.dq(i)]))
        ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j)), z3.And(z3.Implies(j < F(i), T(j) < T(i)), z3.Implies(j > L(i), T(j) > T(i)), z3.Implies(z3.And(F(i) <= j, j <= L(i)), z3.And(T(j) == T(i), F(j) == F(i), L(j) == L(i), self.dq(j) == self.dq(i))))), patterns=[z3.MultiPattern(T(i), T(j))]))
        ex.assume(z3.Implies(z3.Not(self.hasline), self.sortedf(ex)))
        if ex.choose('max_delta given'):
            md = ex.fresh(REAL, 'max_delta'); ex.assume(md.t > 0); kw = {'max_delta': md}; self.md = md.t
        else: kw = {}; self.md = z3.RealVal('0.000001')
        try: r = ex.call(f, [d], kw)
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the rows of the data are returned', isinstance(r, Data))
        if not isinstance(r, Data): return
        ex.prove('the data is sorted by time and line when it has line numbers', z3.Implies(self.hasline, z3.BoolVal(self.sorted)))
        n2, A = r.lst.cell.comps; S = lambda x: z3.Select(A, x)
        ex.prove('as many rows as before', n2 == n)
        q = ex.fresh(INT, 'q').t; ex.assume(rng(q))
        ex.prove('times are strictly increasing', z3.Implies(q + 1 < n, S(q) < S(q + 1)))
        ex.prove('the first of equal times and unique times are unchanged', z3.Implies(F(q) == q, S(q) == T(q)))
        ex.prove('an adjusted time stays below the next different time', z3.Implies(L(q) + 1 < n, S(q) < T(L(q) + 1)))
        ex.prove('steps are at most the maximum', z3.Implies(q > F(q), S(q) - S(q - 1) <= self.md))

UNITS = [Dedup()]
