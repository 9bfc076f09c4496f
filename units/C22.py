"""C22: power tables are pivoted, padded and scaled exactly."""
from pyvc.unit import *
from pyvc.models import Opaque
from pyvc.frames import *
from fractions import Fraction

P = 'trappy.cpu_power.'
cpus, num = z3.Function('cpus', I, S_STR), z3.Function('number', I, S_STR, z3.RealSort())
BY_LABEL = None
class Column(Series):
    """a column of the trace's own table"""
    def py_augop(self, ex, op, o):
        ex.prove("the trace's own tables are not modified", False); return self
    def py_setitem(self, ex, k, v): ex.prove("the trace's own tables are not modified", False)
class ColumnS(SeriesS):
    def unpack(self, ex, c): return column(ex, View(ex, _table(self.tname), fresh=c[0]), None, self.elem, arr=c[1])
def _table(n):
    from pyvc import frames
    return frames._tables[n]
def column(ex, view, f, elem, arr=None, name=None):
    s = Column(ex, view, f, elem, arr=arr, name=name); s.shape = ColumnS(view.table.name, elem); return s
class PowerFrame(Frame):
    """a table with a column cpus of strings and other columns of numbers"""
    def column(self, c):
        if isinstance(c, str) and c == 'cpus': return column(self.ex, self.view, lambda i: cpus(i), STR, name=c)
        ct = self.ex.term(c, STR); return column(self.ex, self.view, lambda i: num(i, ct), REAL, name=c)
    def py_getitem(self, ex, k):
        if isinstance(k, Series): return PowerFrame(ex, self.table, masked(ex, self.view, k), self.cols)
        if isinstance(k, VList) and k.cell.items is None: return SubFrame(self, k)
        return Frame.py_getitem(self, ex, k)
    def py_getattr(self, ex, n):
        if n == 'columns' and hasattr(self, 'names'): return self.names
        return Frame.py_getattr(self, ex, n)
class SubFrame(Ext):
    def __init__(self, f, names): self.f, self.names = f, names
    def py_getattr(self, ex, n):
        if n == 'sum': return Builtin(n, self.sum)
        raise Unsupported('attribute %s of a table' % n)
    def sum(self, ex, a, k):
        if a or k != {'axis': 1}: raise Unsupported('sum')
        return self.f.sum_of(ex, self.names)
def power_table(ex):
    T = Table(ex.fresh(INT, 'rows').t, z3.Function('time', I, z3.RealSort()), z3.Function('cell', I, S_STR, S_PV), lambda c: z3.BoolVal(True), 'Power')
    T.sorted = True; ex.assume(T.n >= 0); fr = PowerFrame(ex, T); return T, fr
class Scaled(Ext):
    """a table times a factor"""
    def __init__(self, what, f=Fraction(1)): self.what, self.f = what, f
    def py_binop(self, ex, op, o, rev):
        if isinstance(o, (int, float, Fraction)) and o and not rev and op in ('*', '/'): return Scaled(self.what, self.f * Fraction(o) if op == '*' else self.f / Fraction(o))
        if isinstance(o, (int, float, Fraction)) and rev and op == '*': return Scaled(self.what, self.f * Fraction(o))
        raise Unsupported('operator %s on a table' % op)

class Pivot(Unit):
    """one column per mask, under its name, with exactly that mask's rows; then padded"""
    name = 'pivot_with_labels'
    functions = (P + 'pivot_with_labels',)
    assumes = ('pandas: == compares cells, a table indexed with a mask holds exactly the rows where it is true; a table made of several series has a row for every time of any of them, in order, and missing cells elsewhere; padding repeats the latest value of the column',
               'no two masks have the same name', 'times are unique (C02)')
    budget = 200
    def setup(self, ex):
        def frame(ex, a, k):
            if len(a) != 1 or k or not isinstance(a[0], VDict): raise Unsupported('pd.DataFrame')
            return Table_(a[0])
        ex.specs['pandas.DataFrame'] = frame
        def inv(ctx):
            if ctx.seq is None: return []
            out = []
            for l in ctx.labels:
                if l[0] == 'c' and l[1] == 'dict':
                    def f(c, l=l):
                        v = c.cur(l)
                        if not isinstance(v, VDict) or v.cell.items is not None or not isinstance(v.cell.shape.v, SeriesS): return z3.BoolVal(True)
                        dom, sel, val = v.cell.comps; x = z3.Const('ix', S_STR); i = z3.Int('ii'); m = self.mask(x); M = c.seq.inv
                        return z3.And(z3.ForAll([x], z3.Select(dom, x) == z3.And(self.named(x), M.member(m), M.pos(m) < c.k), patterns=[z3.Select(dom, x)]),
                                      z3.ForAll([x, i], z3.Implies(z3.Select(dom, x), z3.Select(z3.Select(sel, x), i) == self.row(i, m)), patterns=[z3.Select(z3.Select(sel, x), i)]),
                                      z3.ForAll([x, i], z3.Implies(z3.And(z3.Select(dom, x), self.row(i, m)), z3.Select(z3.Select(val, x), i) == self.data(i)), patterns=[z3.Select(z3.Select(val, x), i)]))
                    out.append((('must', 'columns so far', l), f))
            out.append((('must', 'masks so far have a name'), lambda c: z3.ForAll([z3.Const('ix', S_STR)], z3.Implies(z3.And(c.seq.inv.member(z3.Const('ix', S_STR)), c.seq.inv.pos(z3.Const('ix', S_STR)) < c.k), z3.Select(self.mdom, z3.Const('ix', S_STR))), patterns=[z3.Select(self.mdom, z3.Const('ix', S_STR))])))
            return out
        ex.templates.append(inv)
    def script(self, ex):
        T, fr = power_table(ex); mp = ex.fresh(DictS(STR, STR), 'mapping'); self.mdom, lab = mp.cell.comps; col = ex.fresh(STR, 'data_column'); ex.assume(col.t != lit('cpus'))
        self.mask = mask = ex.fresh_fun('mask_of', S_STR, S_STR); m = z3.Const('m', S_STR)
        ex.assume(z3.ForAll([m], z3.Implies(z3.Select(self.mdom, m), mask(z3.Select(lab, m)) == m), patterns=[z3.Select(lab, m)]))
        self.named = lambda x: z3.And(z3.Select(self.mdom, mask(x)), z3.Select(lab, mask(x)) == x)
        self.row = lambda i, m: z3.And(0 <= i, i < T.n, cpus(i) == m); self.data = lambda i: num(i, col.t)
        q, x = ex.fresh(INT, 'q').t, ex.fresh(STR, 'label').t
        try: r = ex.call(ex.src('trappy.cpu_power', 'pivot_with_labels'), [fr, col, 'cpus', mp], {})
        except PyRaise as e:
                i = z3.Int('ri'); ex.prove('only a mask without a name is an error (%s)' % e.exc.name, z3.And(tbool(e.exc.name == 'KeyError'), z3.Not(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < T.n), z3.Select(self.mdom, cpus(i))), patterns=[cpus(i)])))); return
        ex.prove('every mask has a name', z3.Implies(z3.And(0 <= q, q < T.n), z3.Select(self.mdom, cpus(q))))
        if not isinstance(r, Table_): raise Unsupported('result')
        ex.prove('missing values are padded with the latest one', tbool(r.padded))
        if r.d.cell.items is not None: dom = sel = val = None; ex.prove('no columns without rows', z3.And(tbool(not r.d.cell.items), T.n == 0)); return
        dom, sel, val = r.d.cell.comps
        ex.prove('exactly the masks of the table have a column, under their names', z3.Implies(z3.Select(dom, x), z3.And(self.named(x), z3.Select(dom, z3.Select(lab, mask(x))))))
        ex.prove("every row's mask has a column", z3.Implies(z3.And(0 <= q, q < T.n), z3.Select(dom, z3.Select(lab, cpus(q)))))
        ex.assume(z3.Select(dom, x))
        ex.prove("the column has exactly the mask's rows", z3.Select(z3.Select(sel, x), q) == self.row(q, mask(x)))
        ex.prove("a cell is the row's value", z3.Implies(self.row(q, mask(x)), z3.Select(z3.Select(val, x), q) == num(q, col.t)))
class Table_(Ext):
    def __init__(self, d, padded=False): self.d, self.padded = d, padded
    def py_getattr(self, ex, n):
        def whole(ex, k):
            ex.prove('a value is kept until the next one, however long that is', tbool(k.get('limit') is None))
        def fill(ex, a, k):
            if a or k.get('method') not in ('pad', 'ffill') or set(k) - {'method', 'limit'}: raise Unsupported('fillna')
            return whole(ex, k) or Table_(self.d, True)
        if n == 'fillna': return Builtin(n, fill)
        def ff(ex, a, k):
            if a or set(k) - {'limit'}: raise Unsupported(n)
            return whole(ex, k) or Table_(self.d, True)
        if n in ('ffill', 'pad'): return Builtin(n, ff)
        raise Unsupported('attribute %s of a table' % n)

hexvalue, bits, nocommas = z3.Function('hex_value', S_STR, I), z3.Function('set_bits', I, I), z3.Function('without_commas', S_STR, S_STR)
class Mask(Ext):
    def __init__(self, t, clean=False): self.t, self.clean = t, clean
    def py_getattr(self, ex, n):
        if n == 'replace':
            def f(ex, a, k):
                if list(a) != [',', ''] or k: raise Unsupported('replace')
                return Mask(nocommas(self.t), True)
            return Builtin(n, f)
        raise Unsupported('attribute %s of a mask' % n)
class Bin(Ext):
    def __init__(self, t): self.t = t
    def py_getattr(self, ex, n):
        if n == 'count': return Builtin(n, lambda ex, a, k: Sym(bits(self.t), INT) if list(a) == ['1'] else Unsupported_('count'))
        raise Unsupported('attribute %s of bin()' % n)
def Unsupported_(x): raise Unsupported(x)
class NumCpus(Unit):
    name = 'num_cpus_in_mask'
    functions = (P + 'num_cpus_in_mask',)
    assumes = ('str.replace, int(text, 16), bin() and str.count of Python',)
    def setup(self, ex):
        old = ex.lib['type.int']
        ex.lib = dict(ex.lib)
        ex.lib['type.int'] = lambda ex, a, k: Sym(hexvalue(a[0].t), INT) if a and isinstance(a[0], Mask) and a[0].clean and list(a[1:]) == [16] else old(ex, a, k)
        ex.lib['builtins.bin'] = lambda ex, a, k: Bin(ex.term(a[0], INT))
    def script(self, ex):
        m = ex.fresh(STR, 'mask')
        try: r = ex.call(ex.src('trappy.cpu_power', 'num_cpus_in_mask'), [Mask(m.t)], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the number of bits set in the hexadecimal mask', ex.term(r, INT) == bits(hexvalue(nocommas(m.t))))

class Load(Unit):
    """the sum of all columns whose name starts with load"""
    name = 'CpuInPower._get_load_series'
    functions = (P + 'CpuInPower._get_load_series',)
    assumes = ('pandas: adding two columns adds row by row; copy() makes a new series', 'there is at least one load column')
    budget = 200
    def setup(self, ex):
        def inv(ctx):
            if ctx.seq is None: return []
            out = []; j, i = z3.Int('ij'), z3.Int('ii')
            for l in ctx.labels:
                if l[0] == 'c' and l[1] == 'list':
                    def f(c, l=l):
                        v = c.cur(l)
                        if not isinstance(v, VList) or v.cell.items is not None or v.cell.shape != ListS(STR): return z3.BoolVal(True)
                        n, a = v.cell.comps
                        return z3.And(n == self.cnt(c.k), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(z3.Select(a, j) == self.name_(self.src(j)), 0 <= self.src(j), self.src(j) < c.k, self.isload(self.src(j)))), patterns=[z3.Select(a, j), self.src(j)]))
                    out.append((('load columns so far', l), f))
                if l[0] == 'v':
                    def g(c, l=l):
                        v = c.cur(l)
                        if not isinstance(v, Series): return z3.BoolVal(True)
                        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.T.n), v.at(i) == self.F(c.k, i)), patterns=[v.at(i)])
                    out.append((('sum so far', l), g))
            return out
        ex.templates.append(inv)
    def script(self, ex):
        self.T, fr = T, _ = power_table(ex); fr = _; names = ex.fresh(ListS(STR), 'columns'); fr.names = names; n, arr = names.cell.comps
        self.name_ = name_ = lambda k: z3.Select(arr, k); self.isload = isload = lambda k: z3.PrefixOf(lit('load'), name_(k)) if S_STR == z3.StringSort() else tbool(ex.call(ex.getattr(Sym(name_(k), STR), 'startswith'), ['load'], {}))
        self.cnt, self.src, self.F = ex.fresh_fun('count', I, I), ex.fresh_fun('source', I, I), ex.fresh_fun('total', I, I, z3.RealSort()); k, i = z3.Int('lk'), z3.Int('li')
        L = ex.fresh_fun('is_load', I, B); ex.assume(z3.ForAll([k], L(k) == isload(k), patterns=[name_(k), L(k)])); self.isload = L
        for a in [self.cnt(0) == 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(self.cnt(k + 1) == self.cnt(k) + z3.If(L(k), 1, 0), z3.Implies(L(k), self.src(self.cnt(k)) == k))), patterns=[name_(k)]),
                  z3.ForAll([i], self.F(0, i) == num(i, name_(self.src(0))), patterns=[self.F(0, i)]), z3.ForAll([k, i], z3.Implies(k >= 0, self.F(k + 1, i) == self.F(k, i) + num(i, name_(self.src(k + 1)))), patterns=[self.F(k + 1, i)])]: ex.assume(a)
        ex.assume(self.cnt(n) >= 1)
        def filtered(r, n_, res, T_, P, Q):
            """a filtered list of the columns is the list of load columns: induction on the columns"""
            if res.cell.shape != ListS(STR): return
            m, a_ = res.cell.comps; a, j = z3.Int('fa'), ex.fresh(INT, 'column').t
            same = [z3.simplify(x) for x in (n_, n)]
            if not z3.eq(*same): return
            q = ex.fresh(INT, 'column').t; ex.prove('exactly the columns whose name starts with load are selected', z3.Implies(z3.And(0 <= q, q < n), T_(q) == L(q)))
            ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), T_(k) == L(k)), patterns=[L(k)]))
            inm = lambda a: z3.And(0 <= a, a < m); b = ex.fresh(INT, 'b').t
            S = lambda x, a: z3.Implies(inm(a), (P(a) < x) == (a < self.cnt(x)))
            hyp = z3.And(0 <= j, j < n, 0 <= self.cnt(j), self.cnt(j) <= m, z3.ForAll([a], S(j, a), patterns=[P(a)]))
            ex.prove('the selected columns are numbered in order (induction step)', z3.Implies(z3.And(hyp, name_(j) == name_(j), z3.Implies(L(j), z3.And(T_(j), P(Q(j)) == j)), P(self.cnt(j)) == P(self.cnt(j))), z3.And(0 <= self.cnt(j + 1), self.cnt(j + 1) <= m, S(j + 1, b))))
            ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= n), z3.And(0 <= self.cnt(k), self.cnt(k) <= m)), patterns=[self.cnt(k)]))
            ex.assume(z3.ForAll([k, a], z3.Implies(z3.And(0 <= k, k <= n), S(k, a)), patterns=[z3.MultiPattern(self.cnt(k), P(a))]))
            ex.prove('all of them are numbered', z3.And(P(self.cnt(n)) == P(self.cnt(n)), P(m - 1) == P(m - 1), z3.Implies(P(m - 1) == P(m - 1), m == self.cnt(n))))
            ex.prove('the numbering is the order of the columns', z3.Implies(inm(b), z3.And(z3.Implies(self.cnt(P(b)) == self.cnt(P(b)), z3.And(P(self.cnt(P(b))) == P(self.cnt(P(b))), self.src(b) == P(b))))))
            ex.assume(z3.ForAll([a], z3.Implies(inm(a), z3.Select(a_, a) == name_(self.src(a))), patterns=[z3.Select(a_, a)]))
        ex.on_filter = filtered
        fr.sum_of = lambda ex, l: self.summed(ex, l, fr, n)
        ob = PyObj(ex, ex.src('trappy.cpu_power', 'CpuInPower')); ob.attrs['data_frame'] = fr
        try: r = ex.call(ex.getattr(ob, '_get_load_series'), [], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        if not isinstance(r, Series): raise Unsupported('result')
        q = ex.fresh(INT, 'q').t; ex.assume(z3.And(0 <= q, q < T.n))
        ex.prove('the load of a row is the sum of its load columns', r.at(q) == self.F(self.cnt(n) - 1, q))
        ex.prove("the load is a new series", tbool(not isinstance(r, Column)))
    def summed(self, ex, l, fr, n):
        m, a = ex.list_comps(l, ListS(STR)); j = ex.fresh(INT, 'col').t
        ex.prove('all load columns are summed', z3.And(m == self.cnt(n), z3.Implies(z3.And(0 <= j, j < m), z3.Select(a, j) == self.name_(self.src(j)))))
        return Series(ex, fr.view, lambda i: self.F(m - 1, i), REAL)

LOADV, FREQ = Scalar('ROWS_R', z3.ArraySort(I, z3.RealSort())), lit('freq')
maxf, ncpus, loadf = z3.Function('maximum_frequency', S_STR, z3.RealSort()), z3.Function('cpus_in_mask', S_STR, I), z3.Function('load', I, z3.RealSort())
MUL, DIV = z3.Function('times', z3.RealSort(), z3.RealSort(), z3.RealSort()), z3.Function('divided', z3.RealSort(), z3.RealSort(), z3.RealSort())
class MSeries(Ext):
    """a series made by the program, changed in place: its values are a ghost"""
    def __init__(self, ex, view, arr):
        self.view = view; n = sum(1 for g in ex.ghosts if g.startswith('series')); self.g = 'series%d' % n; ex.ghosts[self.g] = Sym(arr, LOADV); self.shape = ConstS(self) if False else None
    def now(self, ex): return Series(ex, self.view, None, REAL, arr=ex.ghosts[self.g].t)
    def py_augop(self, ex, op, o):
        r = self.now(ex).py_binop(ex, op, o.now(ex) if isinstance(o, MSeries) else o, False); ex.ghost_set(self.g, Sym(r.t, LOADV)); return self
    def py_binop(self, ex, op, o, rev): return MSeries(ex, self.view, self.now(ex).py_binop(ex, op, o.now(ex) if isinstance(o, MSeries) else o, rev).t)
    def py_getitem(self, ex, k): return self.now(ex).py_getitem(ex, k)
    def py_getattr(self, ex, n):
        if n == 'copy': return Builtin(n, lambda ex, a, k: MSeries(ex, self.view, ex.ghosts[self.g].t))
        if n == 'loc': return self
        return self.now(ex).py_getattr(ex, n)
    def py_setitem(self, ex, k, v):
        if not isinstance(k, Series): raise Unsupported('assignment to a part of a series')
        want = masked(ex, self.view, k); i = z3.Int('vi'); old = ex.ghosts[self.g].t
        if isinstance(v, Series) and not same_rows(ex, v.view, want) and not same_rows(ex, v.view, self.view): raise Unsupported('assignment of other rows')
        new = ex.fresh_term(z3.ArraySort(I, z3.RealSort()), 'series')
        ex.assume(z3.ForAll([i], z3.Select(new, i) == z3.If(want.sel(i), v.at(i) if isinstance(v, Series) else ex.term(v, REAL), z3.Select(old, i)), patterns=[z3.Select(new, i)]))
        ex.ghost_set(self.g, Sym(new, LOADV))
class Made(Ext):
    def __init__(self, d): self.d = d
def frame_of(ex, a, k):
    if len(a) != 1 or k: raise Unsupported('pd.DataFrame')
    if isinstance(a[0], Series): return Made({None: a[0]})
    if isinstance(a[0], VDict) and a[0].cell.items is not None: return Made({x: y for x, y in a[0].cell.items})
    raise Unsupported('pd.DataFrame')
def seriesof(ex, v): return v.now(ex) if isinstance(v, MSeries) else v
def pivoted(u):
    def f(ex, a, k):
        b = list(a) + [None] * 4
        for i, n in enumerate(('dfr', 'data_col_name', 'new_col_name', 'mapping_label')):
            if n in k: b[i] = k[n]
        return Scaled(('pivot', b[0], b[1], b[2], b[3]))
    return f
def check_pivot(ex, r, table, col, mp, factor):
    if not isinstance(r, Scaled): raise Unsupported('result')
    ex.prove('the values are pivoted by mask with the given names', tbool(r.what[0] == 'pivot' and r.what[2] == col and r.what[3] == 'cpus' and r.what[4] is mp and (table is None or r.what[1] is table)))
    ex.prove('the values are scaled by %s' % factor, tbool(r.f == factor)); return r.what[1]
class Freqs(Unit):
    """the printed frequencies, divided by 1000"""
    name = 'get_all_freqs'
    functions = (P + 'CpuInPower.get_all_freqs', P + 'CpuOutPower.get_all_freqs', 'trappy.devfreq_power.DevfreqInPower.get_all_freqs', 'trappy.devfreq_power.DevfreqOutPower.get_all_freqs')
    assumes = ('pivot_with_labels by its contract', 'dividing a table or a column divides every cell')
    def setup(self, ex): ex.specs[P + 'pivot_with_labels'] = pivoted(self); ex.specs['pandas.DataFrame'] = frame_of
    def script(self, ex):
        T, fr = power_table(ex); dev = ex.choose('devfreq'); inp = ex.choose('in power'); mp = Opaque('mapping')
        name = ('DevfreqInPower' if inp else 'DevfreqOutPower') if dev else ('CpuInPower' if inp else 'CpuOutPower')
        ob = PyObj(ex, ex.src('trappy.devfreq_power' if dev else 'trappy.cpu_power', name)); ob.attrs['data_frame'] = fr
        try: r = ex.call(ex.getattr(ob, 'get_all_freqs'), [] if dev else [mp], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        if not dev: check_pivot(ex, r, fr, 'freq', mp, Fraction(1, 1000)); return
        if not isinstance(r, Made) or len(r.d) != 1: raise Unsupported('result')
        s = seriesof(ex, list(r.d.values())[0]); q = ex.fresh(INT, 'q').t; ex.assume(z3.And(0 <= q, q < T.n))
        ex.prove('one row per event', s.view.sel(q)); ex.prove('device frequencies are the printed ones divided by 1000000', s.at(q) == num(q, FREQ) / 1000000)
class LoadData(Unit):
    """the total load, pivoted"""
    name = 'get_load_data'
    functions = (P + 'CpuInPower.get_load_data',)
    assumes = ('pivot_with_labels and _get_load_series by their contracts',)
    def setup(self, ex):
        ex.specs[P + 'pivot_with_labels'] = pivoted(self); ex.specs['pandas.DataFrame'] = frame_of
        ex.specs[P + 'CpuInPower._get_load_series'] = lambda ex, a, k: MSeries(ex, self.fr.view, loads(ex))
    def script(self, ex):
        self.T, self.fr = T, fr = power_table(ex); mp = Opaque('mapping'); ob = PyObj(ex, ex.src('trappy.cpu_power', 'CpuInPower')); ob.attrs['data_frame'] = fr
        try: r = ex.call(ex.getattr(ob, 'get_load_data'), [mp], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        m = check_pivot(ex, r, None, 'load', mp, Fraction(1)); check_made(ex, m, T, lambda q: loadf(q))
def check_made(ex, m, T, f):
    if not isinstance(m, Made) or set(m.d) != {'cpus', 'load'}: raise Unsupported('pivoted table')
    q = ex.fresh(INT, 'q').t; ex.assume(z3.And(0 <= q, q < T.n)); c, l = (seriesof(ex, m.d[x]) for x in ('cpus', 'load'))
    ex.prove("every row has its own mask", z3.And(c.view.sel(q), c.at(q) == cpus(q))); ex.prove('every row has its own load', z3.And(l.view.sel(q), l.at(q) == f(q)))
def loads(ex):
    a = ex.fresh_term(z3.ArraySort(I, z3.RealSort()), 'loads'); i = z3.Int('vi'); ex.assume(z3.ForAll([i], z3.Select(a, i) == loadf(i), patterns=[z3.Select(a, i)])); return a
class Normalized(Unit):
    """load times frequency over (maximum frequency of the mask times its number of CPUs)"""
    name = 'get_normalized_load_data'
    functions = (P + 'CpuInPower.get_normalized_load_data',)
    assumes = ('pivot_with_labels, _get_load_series and num_cpus_in_mask by their contracts', 'every named mask occurs in the table; frequencies and CPU counts are positive', 'pandas: an in-place product and an assignment through a mask change exactly the cells concerned')
    budget = 200
    def setup(self, ex):
        ex.specs[P + 'pivot_with_labels'] = pivoted(self); ex.specs['pandas.DataFrame'] = frame_of
        ex.specs[P + 'CpuInPower._get_load_series'] = lambda ex, a, k: MSeries(ex, self.fr.view, loads(ex))
        ex.specs[P + 'num_cpus_in_mask'] = lambda ex, a, k: Sym(ncpus(ex.term(a[0], STR)), INT)
        ex.lib = dict(ex.lib); old = ex.lib['builtins.max']
        ex.lib['builtins.max'] = lambda ex, a, k: greatest(ex, a[0]) if len(a) == 1 and isinstance(a[0], Series) and not k else old(ex, a, k)
        def inv(ctx):
            if ctx.seq is None: return []
            out = []; i = z3.Int('ii')
            for l in ctx.labels:
                if l[0] == 'gh' and l[1].startswith('series'):
                    def f(c, l=l):
                        a = c.cur(l).t; M = c.seq.inv; m = cpus(i)
                        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.T.n), z3.Select(a, i) == z3.If(z3.And(M.member(m), M.pos(m) < c.k), self.norm(i), MUL(loadf(i), num(i, FREQ)))), patterns=[z3.Select(a, i)])
                    out.append((('must', 'normalized so far', l), f))
            return out
        ex.templates.append(inv)
    def script(self, ex):
        self.T, self.fr = T, fr = power_table(ex); mp = ex.fresh(DictS(STR, STR), 'mapping'); dom = mp.cell.comps[0]
        i, m = z3.Int('ni'), z3.Const('nm', S_STR); w = ex.fresh_fun('row_of', S_STR, I)
        self.norm = lambda i: DIV(MUL(loadf(i), num(i, FREQ)), MUL(maxf(cpus(i)), z3.ToReal(ncpus(cpus(i)))))
        ex.nonlin = lambda op, x, y: (MUL if op == '*' else DIV)(x, y); a, b, c = z3.Reals('ma mb mc')
        for f in [z3.ForAll([a, b], MUL(a, b) == MUL(b, a), patterns=[MUL(a, b)]), z3.ForAll([a, b], z3.Implies(z3.And(a > 0, b > 0), MUL(a, b) > 0), patterns=[MUL(a, b)]),
                  z3.ForAll([a, b, c], z3.Implies(z3.And(b > 0, c > 0), DIV(a, MUL(b, c)) == DIV(DIV(a, b), c)), patterns=[DIV(a, MUL(b, c))]),
                  z3.ForAll([a, b, c], DIV(DIV(a, b), c) == DIV(DIV(a, c), b), patterns=[DIV(DIV(a, b), c)]), z3.ForAll([a, b, c], MUL(DIV(a, b), c) == DIV(MUL(a, c), b), patterns=[MUL(DIV(a, b), c)])]: ex.assume(f)
        ok = lambda i: z3.And(0 <= i, i < T.n)
        ex.assume(z3.ForAll([i], z3.Implies(ok(i), z3.And(num(i, FREQ) > 0, maxf(cpus(i)) >= num(i, FREQ))), patterns=[num(i, FREQ)]))
        ex.assume(z3.ForAll([m], z3.Implies(z3.Select(dom, m), z3.And(ok(w(m)), cpus(w(m)) == m, maxf(m) == num(w(m), FREQ))), patterns=[z3.Select(dom, m)]))
        ex.assume(z3.ForAll([m], ncpus(m) > 0, patterns=[ncpus(m)]))
        self.w = w
        ob = PyObj(ex, ex.src('trappy.cpu_power', 'CpuInPower')); ob.attrs['data_frame'] = fr
        try: r = ex.call(ex.getattr(ob, 'get_normalized_load_data'), [mp], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        t = check_pivot(ex, r, None, 'load', mp, Fraction(1)); check_made(ex, t, T, lambda q: z3.If(z3.Select(dom, cpus(q)), self.norm(q), MUL(loadf(q), num(q, FREQ))))
def greatest(ex, s):
    if ex.decide(s.view.empty()): ex.raise_('ValueError', 'max() arg is an empty sequence')
    x, w, i = ex.fresh(REAL, 'maximum'), ex.fresh(INT, 'row').t, z3.Int('vi')
    ex.assume(z3.And(s.view.sel(w), s.at(w) == x.t)); ex.assume(z3.ForAll([i], z3.Implies(s.view.sel(i), s.at(i) <= x.t), patterns=[s.view.sel(i), s.at(i)]))
    if ex.check_valid(x.t == maxf(cpus(w)), quick=True)[0] == 'proved': ex.assume(x.t == maxf(cpus(w)))
    return x
UNITS = [Pivot(), NumCpus(), Load(), Freqs(), LoadData(), Normalized()]
