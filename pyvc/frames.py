"""pyvc: assumed contracts of pandas tables, as far as the verified functions use them.

A Table is the data: n rows with a time, cells and a set of columns. A View is a sub-sequence of its rows, in table order
(which rows: an array of Booleans). A Frame is a table seen through a view, a Series a function on the rows of a view.
Missing values are PV.pnone, equal to nothing."""
from . import *

class Table:
    def __init__(self, n, tm, cell, col, name='Table', owner=None):
        self.n, self.tm, self.cell, self.col, self.name, self.owner = n, tm, cell, col, name, owner
        _tables[name] = self
class View:
    def __init__(self, ex, table, sel=None, cond=None, whole=False, fresh=None):
        self.ex, self.table, self.whole = ex, table, whole
        self.key = ex.fresh_name('view_' + table.name)
        i = z3.Int('vi')
        if fresh is not None: self.arr = fresh
        else:
            self.arr = z3.Const(self.key, z3.ArraySort(I, B))
            c = cond(i)
            ex.assume(z3.ForAll([i], z3.Select(self.arr, i) == c, patterns=[z3.Select(self.arr, i)]))
        self._empty = self._first = self._last = None
    def sel(self, i): return z3.Select(self.arr, i)
    def restrict(self, f): return View(self.ex, self.table, cond=lambda i: z3.And(self.sel(i), f(i)))
    def empty(self):
        if self._empty is None:
            ex = self.ex
            if self.whole: self._empty = self.table.n == 0
            else:
                i = z3.Int('vi'); e = ex.fresh_term(B, 'empty'); w = ex.fresh_term(I, 'row')
                ex.assume(z3.Implies(e, z3.ForAll([i], z3.Not(self.sel(i)), patterns=[self.sel(i)])))
                ex.assume(z3.Implies(z3.Not(e), self.sel(w)))
                self._empty = e
        return self._empty
    def end(self, last):
        """the first (last) row; the view is not empty"""
        ex = self.ex
        if self.whole: return self.table.n - 1 if last else z3.IntVal(0)
        a = '_last' if last else '_first'
        if getattr(self, a) is None:
            i = z3.Int('vi'); w = ex.fresh_term(I, 'end')
            ex.assume(z3.And(self.sel(w), z3.ForAll([i], z3.Implies(self.sel(i), i <= w if last else i >= w), patterns=[self.sel(i)])))
            setattr(self, a, w)
        return getattr(self, a)

_tables = {}
class SeriesS(Shape):
    """a series on some rows of a table: which rows, and the values"""
    def __init__(self, tname, elem): self.tname, self.elem = tname, elem
    def key(self): return (self.tname, self.elem)
    def sorts(self): return [z3.ArraySort(I, B)] + [z3.ArraySort(I, s) for s in self.elem.sorts()]
    def unpack(self, ex, c): return Series(ex, View(ex, _tables[self.tname], fresh=c[0]), None, self.elem, arr=c[1])
    def pack(self, ex, v): return [v.view.arr, v.t]
    def candidates(self, ex, l, e):
        return [(('same', 'rows') + tuple(l), lambda c: c.cur(l).view.arr == e.view.arr)]
def same_rows(ex, a, b):
    return a is b or z3.eq(a.arr, b.arr) or ex.check_valid(a.arr == b.arr, quick=True)[0] == 'proved'
class Series(Ext):
    def __init__(self, ex, view, f, elem, arr=None, name=None):
        self.ex, self.view, self.elem, self.colname = ex, view, elem, name
        if arr is None:
            i = z3.Int('vi'); arr = ex.fresh_term(z3.ArraySort(I, elem.sorts()[0]), 'series')
            ex.assume(z3.ForAll([i], z3.Select(arr, i) == f(i), patterns=[z3.Select(arr, i)]))
        self.t = arr; self.shape = SeriesS(view.table.name, elem)
    def at(self, i): return z3.Select(self.t, i)
    def val(self, i): return Sym(self.at(i), self.elem)
    def map_(self, g, pure=True):
        """elementwise result of g(value)"""
        ex = self.ex; i = z3.Int(ex.fresh_name('mi'))
        v, _ = ex.pure_value(lambda: g(self.val(i)), [i], self.view.sel(i))
        sh = ex.shape_of(v)
        if sh not in (INT, REAL, BOOL, STR, PV): raise Unsupported('elements of shape %r' % (sh,))
        t = ex.term(v, sh)
        return Series(ex, self.view, lambda j: z3.substitute(t, (i, j)), sh)
    def zip_(self, o, g):
        ex = self.ex
        if isinstance(o, Series):
            if not same_rows(ex, o.view, self.view): raise Unsupported('series on different rows')
            i = z3.Int(ex.fresh_name('mi'))
            v, _ = ex.pure_value(lambda: g(self.val(i), o.val(i)), [i], self.view.sel(i))
            sh = ex.shape_of(v); t = ex.term(v, sh)
            return Series(ex, self.view, lambda j: z3.substitute(t, (i, j)), sh)
        return self.map_(lambda x: g(x, o))
    def truthy(self, i):
        if self.elem == BOOL: return self.at(i)
        raise Unsupported('mask of %r' % (self.elem,))
    def py_getattr(self, ex, n):
        B1 = lambda f: Builtin('Series.' + n, f)
        if n in ('map', 'apply'): return B1(lambda ex, a, k: self.map_(lambda x: call_cell(ex, a[0], x)))
        if n == 'isin': return B1(lambda ex, a, k: self.map_(lambda x: ex.mkbool(isin(ex, x, a[0]))))
        if n == 'eq': return B1(lambda ex, a, k: self.py_eqop(ex, '==', a[0]))
        if n == 'index': return IndexOf(self.view)
        if n == 'empty': return ex.mkbool(self.view.empty())
        if n == 'values': return Values(self)
        if n == 'name': return self.colname
        if n == 'unique': return B1(lambda ex, a, k: Values(self, True))
        if n == 'copy': return B1(lambda ex, a, k: Series(ex, self.view, None, self.elem, arr=self.t))
        if n in ('loc',): return Loc(self)
        return super().py_getattr(ex, n)
    def py_eqop(self, ex, op, o):
        r = self.zip_(o, lambda x, y: ex.mkbool(neq_missing(ex, x, y)))
        return r if op == '==' else r.py_unary(ex, 'not')
    def py_cmp(self, ex, op, o, rev):
        return self.zip_(o, lambda x, y: ex.compare(op, y, x) if rev else ex.compare(op, x, y)) if not isinstance(op, str) else self.zip_(o, lambda x, y: ex.mkbool(ex.order(op, y, x) if rev else ex.order(op, x, y)))
    def py_binop(self, ex, op, o, rev):
        if op in '&|':
            f = lambda x, y: ex.mkbool((ex.And if op == '&' else ex.Or)(tbool(ex.truth(x)), tbool(ex.truth(y))))
        else: f = lambda x, y: ex.binop(op, y, x) if rev else ex.binop(op, x, y)
        return self.zip_(o, f)
    def py_unary(self, ex, op):
        if op in ('~', 'not'): return Series(ex, self.view, lambda i: z3.Not(self.truthy(i)), BOOL)
        if op == '-': return self.map_(lambda x: ex.binop('-', 0, x))
        raise Unsupported('unary %s on a series' % op)
    def py_getitem(self, ex, k):
        if isinstance(k, slice): return Series(ex, slice_view(ex, self.view, k), None, self.elem, arr=self.t)
        if isinstance(k, Series): return Series(ex, masked(ex, self.view, k), None, self.elem, arr=self.t, name=self.colname)
        return super().py_getitem(ex, k)
    def py_len(self, ex): return length(ex, self.view)
    def py_truth(self, ex): ex.raise_('ValueError', 'The truth value of a Series is ambiguous')
    def py_set(self, ex): return Values(self).py_set(ex)
    def py_iter(self, ex): return Values(self).py_iter(ex)
def call_cell(ex, f, x):
    old = ex.nan_term
    ex.nan_term = x.t if isinstance(x, Sym) and x.s == PV else None
    try: return ex.call(f, [x], {})
    finally: ex.nan_term = old
def neq_missing(ex, x, y):
    """== where a missing value equals nothing"""
    e = ex.eq(x, y)
    cs = [z3.Not(S_PV.is_pnone(v.t)) for v in (x, y) if isinstance(v, Sym) and v.s == PV]
    return ex.And(e if not isinstance(e, bool) else e, *cs) if cs else e
def isin(ex, x, wanted):
    if isinstance(wanted, Ext) and not hasattr(wanted, 'py_isin'): raise Unsupported('isin %r' % (wanted,))
    if isinstance(wanted, Ext): return wanted.py_isin(ex, x)
    if is_strv(wanted): ex.raise_('TypeError', 'only list-like objects are allowed to be passed to isin()')
    if not isinstance(wanted, (VList, VSet, VDict, tuple)): ex.raise_('TypeError', 'only list-like objects are allowed to be passed to isin()')
    c = ex.contains(wanted, x)
    return ex.And(c, z3.Not(S_PV.is_pnone(x.t))) if isinstance(x, Sym) and x.s == PV else c
def length(ex, v):
    if v.whole: return Sym(v.table.n, INT)
    if getattr(v, '_len', None) is None:
        n = ex.fresh_term(I, 'rows'); ex.assume(z3.And(n >= 0, (n == 0) == v.empty())); v._len = n
    return Sym(v._len, INT)
def masked(ex, view, k):
    if not same_rows(ex, k.view, view): raise Unsupported('mask on other rows')
    return view.restrict(k.truthy)
def slice_view(ex, view, k):
    """label slice of a table sorted by time: both bounds included"""
    if k.step is not None: raise Unsupported('slice step')
    lo, hi = ex.force(k.start) if k.start is not None else None, ex.force(k.stop) if k.stop is not None else None
    for b_ in (lo, hi):
        if b_ is not None and not is_num(b_) and not (isinstance(b_, Sym) and b_.s == PV): raise Unsupported('slice bound %r' % (b_,))
    if not getattr(view.table, 'sorted', False): raise Unsupported('slice of an unsorted table')
    return view.restrict(lambda i: z3.And(*([view.table.tm(i) >= ex.term(lo, REAL)] if lo is not None else []), *([view.table.tm(i) <= ex.term(hi, REAL)] if hi is not None else []), z3.BoolVal(True)))

class FrameS(Shape):
    def __init__(self, tname): self.tname = tname
    def key(self): return (self.tname,)
    def sorts(self): return [z3.ArraySort(I, B)]
    def unpack(self, ex, c): return Frame(ex, _tables[self.tname], View(ex, _tables[self.tname], fresh=c[0]))
class Frame(Ext):
    def __init__(self, ex, table, view=None, cols=None):
        self.ex, self.table, self.cols = ex, table, cols
        self.view = view or View(ex, table, cond=lambda i: z3.And(0 <= i, i < table.n), whole=True)
        self.shape = FrameS(table.name)
    @property
    def t(self): return self.view.arr
    def has(self, c): return self.table.col(self.ex.term(c, STR)) if self.cols is None else tbool(self.ex.Or(*[self.ex.eq(c, x) for x in self.cols]))
    def column(self, c):
        ct = self.ex.term(c, STR)
        return Series(self.ex, self.view, lambda i: self.table.cell(i, ct), PV, name=c)
    def py_getitem(self, ex, k):
        if isinstance(k, slice): return Frame(ex, self.table, slice_view(ex, self.view, k), self.cols)
        if isinstance(k, Series): return Frame(ex, self.table, masked(ex, self.view, k), self.cols)
        if isinstance(k, VList) and k.cell.items is not None:
            for c in k.cell.items:
                if not ex.decide(self.has(c)): ex.raise_('KeyError', c)
            return Frame(ex, self.table, self.view, list(k.cell.items))
        k = ex.force(k)
        if is_strv(k):
            if not ex.decide(self.has(k)): ex.raise_('KeyError', k)
            return self.column(k)
        raise Unsupported('frame[%r]' % (k,))
    def py_getattr(self, ex, n):
        if n == 'columns': return Columns(self)
        if n == 'index': return IndexOf(self.view)
        if n == 'empty': return ex.mkbool(self.view.empty())
        if n == 'loc': return Loc(self)
        if n == 'copy': return Builtin(n, lambda ex, a, k: Frame(ex, self.table, self.view, self.cols))
        if n == 'sort_index': return Builtin(n, lambda ex, a, k: self.sort(ex, a, k))
        return super().py_getattr(ex, n)
    def sort(self, ex, a, k):
        if not getattr(self.table, 'sorted', False): raise Unsupported('sorting an unsorted table')
        if a or set(k) - {'inplace', 'kind'}: raise Unsupported('sort_index options')
        return None if k.get('inplace') is True else self
    def py_setattr(self, ex, n, v): self.changed(ex)
    def py_setitem(self, ex, k, v): self.changed(ex)
    def py_delitem(self, ex, k): self.changed(ex)
    def changed(self, ex):
        ex.prove("the trace's own tables are not modified", False); raise Unsupported('table modified in place')
    def py_contains(self, ex, v): return Columns(self).py_contains(ex, v)
    def py_len(self, ex): return length(ex, self.view)
    def py_truth(self, ex): ex.raise_('ValueError', 'The truth value of a DataFrame is ambiguous')
class Loc(Ext):
    def __init__(self, o): self.o = o
    def py_getitem(self, ex, k):
        if isinstance(k, slice) or isinstance(k, Series) and k.elem == BOOL: return self.o.py_getitem(ex, k)
        if isinstance(k, tuple) and len(k) == 2 and isinstance(self.o, Frame):
            f = self.o if isinstance(k[0], slice) and k[0] == slice(None, None, None) else self.py_getitem(ex, k[0])
            return f.py_getitem(ex, k[1])
        return super().py_getitem(ex, k)
    def py_setitem(self, ex, k, v): self.o.py_setitem(ex, k, v)
class Columns(Ext):
    def __init__(self, f): self.f = f
    def py_contains(self, ex, v):
        v = ex.force(v)
        if not is_strv(v): raise Unsupported('column name')
        return self.f.has(v)
class IndexOf(Ext):
    """the times of the rows of a view"""
    def __init__(self, view): self.view = view
    def py_getattr(self, ex, n):
        if n == 'values': return self
        if n in ('max', 'min'): return Builtin(n, lambda ex, a, k: self.extreme(ex, n == 'max'))
        return super().py_getattr(ex, n)
    def extreme(self, ex, hi):
        if not getattr(self.view.table, 'sorted', False): raise Unsupported('extreme time of an unsorted table')
        if ex.decide(self.view.empty()): return NAN
        return Sym(self.view.table.tm(self.view.end(hi)), REAL)
    def py_getitem(self, ex, k):
        k = ex.force(k)
        if k not in (0, -1): raise Unsupported('index[%r]' % (k,))
        if ex.decide(self.view.empty()): ex.raise_('IndexError', 'index out of bounds')
        return Sym(self.view.table.tm(self.view.end(k == -1)), REAL)
    def py_len(self, ex): return length(ex, self.view)
class NaN(Ext): pass
NAN = NaN()
class Values(Ext):
    """the values of a series (in order, or the distinct ones)"""
    def __init__(self, s, unique=False): self.s, self.unique = s, unique
    def py_set(self, ex):
        """SetS of exactly the values that occur"""
        s = self.s; M = ex.fresh_term(z3.ArraySort(s.elem.sorts()[0], B), 'values'); w = ex.fresh_fun('rowof', s.elem.sorts()[0], I)
        i = z3.Int('vi'); x = z3.Const('vx', s.elem.sorts()[0])
        ex.assume(z3.ForAll([i], z3.Implies(s.view.sel(i), z3.Select(M, s.at(i))), patterns=[s.at(i), s.view.sel(i)]))
        ex.assume(z3.ForAll([x], z3.Implies(z3.Select(M, x), z3.And(s.view.sel(w(x)), s.at(w(x)) == x)), patterns=[z3.Select(M, x)]))
        return VSet(ex.newcell('set', comps=[M], shape=SetS(s.elem)))
    def py_iter(self, ex): raise Unsupported('iteration over the values of a series')
def install(ex):
    S = ex.specs
    def series(ex, a, k):
        d = a[0] if a else k.get('data'); ix = k.get('index') if 'index' in k else (a[1] if len(a) > 1 else None)
        if not isinstance(ix, IndexOf) or set(k) - {'index', 'data', 'name'}: raise Unsupported('pd.Series')
        d = ex.force(d); sh = ex.shape_of(d)
        if sh not in (INT, REAL, BOOL, STR, PV): raise Unsupported('pd.Series of %r' % (d,))
        return Series(ex, ix.view, lambda i: ex.term(d, sh), sh)
    S['pandas.Series'] = series
