"""C06: rows keep the identity of their line."""
from pyvc.unit import *
from pyvc.models import *
SD, SV = z3.ArraySort(S_STR, B), z3.ArraySort(S_STR, S_PV)
COLS = dict(time=('time_array', REAL), comm=('comm_array', STR), pid=('pid_array', INT), cpu=('cpu_array', INT), line=('line_array', INT), data=('data_array', STR))
META = dict(__comm='comm', __pid='pid', __cpu='cpu', __line='line')
DS = DictS(STR, PV)

def buffers(ex, ob, names=tuple(COLS), same=True):
    """the parser's buffers: symbolic lists of one common length; gives their contents"""
    n = None; out = {}
    for c in names:
        a, sh = COLS[c]; l = ex.fresh(ListS(sh), a); ob.attrs[a] = l
        out[c] = l.cell.comps
        if same and n is not None: ex.assume(out[c][0] == n)
        n = out[c][0] if n is None else n
    return n, out

class Append(Unit):
    name = 'append_data'
    functions = ('trappy.base.Base.append_data',)
    def script(self, ex):
        ob = PyObj(ex, ex.src('trappy.base', 'Base'))
        n, old = buffers(ex, ob)
        v = {c: ex.fresh(sh, 'v_' + c) for c, (a, sh) in COLS.items()}
        order = ('time', 'comm', 'pid', 'cpu', 'line', 'data')
        args, kw = ([v[c] for c in order], {}) if ex.choose('by position') else ([], v)
        try: ex.call(ex.getattr(ob, 'append_data'), args, kw)
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        q = ex.fresh(INT, 'q').t; ex.assume(z3.And(0 <= q, q < n))
        for c, (a, sh) in COLS.items():
            l = ob.attrs[a]
            if not isinstance(l, VList): raise Unsupported(a)
            m, A = l.cell.comps
            ex.prove('%s gets exactly one entry' % a, m == n + 1)
            ex.prove('%s: the new entry is the line\'s' % a, z3.Select(A, n) == ex.term(v[c], sh))
            ex.prove('%s: earlier entries stay' % a, z3.Select(A, q) == z3.Select(old[c][1], q))

def decoded(ex, s): return uf(ex, 'decoded', [s], DS)
class Rows(Unit):
    """generate_parsed_data: the i-th row has the i-th line's meta data, overridden by its payload"""
    name = 'generate_parsed_data'
    functions = ('trappy.base.Base.generate_parsed_data',)
    assumes = ('generate_data_dict by its contract (C04)', 'getrusage and the free memory estimate return arbitrary numbers')
    budget = 120
    def setup(self, ex):
        ex.specs['trappy.base.Base.generate_data_dict'] = lambda ex, a, k: decoded(ex, ex.force(a[1]))
        ex.specs['trappy.base._get_free_memory_kb'] = lambda ex, a, k: ex.fresh(OptS(INT), 'kb')
        ex.specs['resource.getrusage'] = lambda ex, a, k: Usage()
        ex.templates.append(self.inv); ex.templates.append(dict_loop)
    def row(self, i):
        """domain and values of the row of line i"""
        ex = self.ex; at = lambda c: z3.Select(self.buf[c][1], i)
        D, V = decoded(ex, Sym(at('data'), STR)).cell.comps
        md = z3.K(S_STR, z3.BoolVal(False))
        for m in META: md = z3.Store(md, lit(m), True)
        x = z3.Const('rx', S_STR)
        def mv(x):
            t = z3.Const('any_pv', S_PV)
            for m, c in META.items(): t = z3.If(x == lit(m), S_PV.pstr(at(c)) if c == 'comm' else S_PV.pint(at(c)), t)
            return t
        return (lambda x: z3.Or(z3.Select(md, x), z3.Select(D, x))), (lambda x: z3.If(z3.Select(D, x), z3.Select(V, x), mv(x)))
    def holds(self, comps, i, x):
        n, D, V = comps; d, v = self.row(i)
        Di, Vi = z3.Select(D, i), z3.Select(V, i)
        return z3.And(z3.Select(Di, x) == d(x), z3.Implies(d(x), z3.Select(Vi, x) == v(x)))
    def inv(self, ctx):
        out = []; i = z3.Int('gi'); x = z3.Const('gx', S_STR)
        if ctx.seq is None: return []
        for l in ctx.labels:
            if l[0] == 'c' and ctx.info.mod[l] == ListS(DS):
                def f(c, l=l):
                    cs = c.cur(l).cell.comps
                    return z3.And(cs[0] == c.k, z3.ForAll([i, x], z3.Implies(z3.And(0 <= i, i < c.k), self.holds(cs, i, x)), patterns=[z3.Select(z3.Select(cs[1], i), x), z3.Select(z3.Select(cs[2], i), x)]))
                out.append((('must', 'the rows so far', l), f))
        return out
    def script(self, ex):
        self.ex = ex
        ob = PyObj(ex, ex.src('trappy.base', 'Base')); n, self.buf = buffers(ex, ob)
        try: r = ex.call(ex.getattr(ob, 'generate_parsed_data'), [], {})
        except PyRaise as e: ex.prove('does not fail on its own (%s)' % e.exc.name, False); return
        rows = ex.call(ex.builtin('list'), [r], {})
        if rows.cell.items is not None and not rows.cell.items: ex.prove('one row per recorded line', n == 0); return
        cs = rows.cell.comps if rows.cell.items is None else ex.pack(rows, ListS(DS))
        if cs is None or len(cs) != 3: raise Unsupported('rows')
        ex.prove('one row per recorded line', cs[0] == n)
        q = ex.fresh(INT, 'q').t; x = z3.Const('qx', S_STR); ex.assume(z3.And(0 <= q, q < n))
        ex.prove("the i-th row is the i-th line's meta data overridden by the fields of its payload", self.holds(cs, q, x))
class Usage(Ext):
    def py_getattr(self, ex, n): return ex.fresh(INT, n)

class Index(Ext):
    def __init__(self, data): self.data = data
class Frame(Ext):
    """a data frame: rows and their times"""
    def __init__(self, rows, times, unique=False): self.rows, self.times, self.unique = rows, times, unique
class Build(Unit):
    """create_dataframe: the table has the rows in recording order, indexed by the recorded times"""
    name = 'create_dataframe'; expansion_only = False
    functions = ('trappy.base.Base.create_dataframe',)
    assumes = ('generate_parsed_data by its contract (above), applied to the buffers as they are when it is called', 'pd.DataFrame(rows, index=times) has those rows in that order, at those times',
               'handle_duplicate_index by its contract (C13): with unique times (C02) the table stays as it is', '__get_trace_array_lengths and trace_parser_explode_array by their contracts (C05)',
               'optimize_dataframe by its contract (C06: no cell changes)')
    def setup(self, ex):
        S = ex.specs; C = 'trappy.base.Base.'
        S[C + '__get_trace_array_lengths'] = self.lengths
        S['trappy.base.trace_parser_explode_array'] = self.explode
        S[C + 'generate_parsed_data'] = self.rows
        S[C + 'optimize_dataframe'] = lambda ex, a, k: None
        S['trappy.utils.handle_duplicate_index'] = self.dedup
        S['pandas.Index'] = self.index
        S['pandas.DataFrame'] = self.frame
        ex.templates.append(self.inv)
    def lengths(self, ex, a, k): return self.larr
    def explode(self, ex, a, k):
        if not isinstance(a[1], VDict) or a[1].cell is not self.larr.cell: raise Unsupported('array lengths')
        return Sym(self.expl(ex.term(a[0], STR)), STR)
    def rows(self, ex, a, k):
        b = {c: ex.getattr(a[0], COLS[c][0]) for c in ('comm', 'pid', 'cpu', 'line', 'data')}
        if not all(isinstance(l, VList) for l in b.values()): raise Unsupported('buffers')
        return RowGen({c: ex.pack(l, ListS(COLS[c][1])) for c, l in b.items()})
    def dedup(self, ex, a, k):
        if not isinstance(a[0], Frame): raise Unsupported('handle_duplicate_index')
        return Frame(a[0].rows, a[0].times, True)
    def index(self, ex, a, k):
        if not isinstance(a[0], VList): raise Unsupported('Index')
        if set(k) - {'name'} or len(a) > 1: raise Unsupported('Index options')
        return Named(ex.pack(a[0], ListS(REAL)), k.get('name'))
    def frame(self, ex, a, k):
        if len(a) != 1 or set(k) != {'index'} or not isinstance(a[0], RowGen) or not isinstance(k['index'], Named): raise Unsupported('DataFrame')
        ex.prove('the time index is called Time', k['index'].name == 'Time')
        return Frame(a[0], k['index'].data)
    def inv(self, ctx):
        out = []; i = z3.Int('ei')
        if ctx.seq is None: return []
        for l in ctx.labels:
            if l[0] == 'c' and ctx.info.mod[l] == ListS(STR):
                out.append((('must', 'expanded so far', l), lambda c, l=l: z3.And(c.cur(l).cell.comps[0] == self.n, z3.ForAll([i], z3.Select(c.cur(l).cell.comps[1], i) == z3.If(z3.And(0 <= i, i < c.k), self.expl(self.D(i)), self.D(i)), patterns=[z3.Select(c.cur(l).cell.comps[1], i)]))))
        return out
    def script(self, ex):
        ob = PyObj(ex, ex.src('trappy.base', 'Base')); n, buf = buffers(ex, ob); self.n = n
        self.D = lambda i: z3.Select(buf['data'][1], i); self.expl = z3.Function('expanded', S_STR, S_STR)
        self.larr = ex.fresh(DictS(STR, INT), 'array_lengths')
        some = ex.truth(self.larr)
        old = Frame(None, None); ob.attrs['data_frame'] = old
        before = dict(ob.attrs)
        try: ex.call(ex.getattr(ob, 'create_dataframe'), [], {})
        except PyRaise as e: ex.prove('does not fail on its own (%s)' % e.exc.name, False); return
        df = ob.attrs['data_frame']; full = not self.expansion_only
        q = ex.fresh(INT, 'q').t
        sel = lambda cs: z3.Select(cs[1], q)
        if full:
            for c, (a, sh) in COLS.items():
                l = ob.attrs[a]
                if not isinstance(l, VList): raise Unsupported(a)
                ex.prove('%s is empty afterwards' % a, z3.BoolVal(len(l.cell.items) == 0) if l.cell.items is not None else l.cell.comps[0] == 0)
        if df is old:
            if full: ex.prove('the table is only left out when nothing was recorded', z3.Not(n > 0))
            return
        if not isinstance(df, Frame): raise Unsupported('data_frame')
        ex.assume(z3.And(0 <= q, q < n))
        want = z3.If(tbool(some), self.expl(self.D(q)), self.D(q))
        ex.prove("the i-th row is decoded from the i-th line's payload, expanded when the event has arrays", z3.And(df.rows.b['data'][0] == n, sel(df.rows.b['data']) == want))
        if not full: return
        ex.prove('duplicate times were made unique', df.unique)
        ex.prove('as many times as lines', df.times[0] == n); ex.prove('the i-th time is the i-th line\'s', sel(df.times) == z3.Select(buf['time'][1], q))
        for c in ('comm', 'pid', 'cpu', 'line'):
            ex.prove('%s: rows in recording order' % c, z3.And(df.rows.b[c][0] == n, sel(df.rows.b[c]) == z3.Select(buf[c][1], q)))
class RowGen(Ext):
    def __init__(self, b): self.b = b
class Named(Ext):
    def __init__(self, data, name): self.data, self.name = data, name

class OTable(Ext):
    """a table whose cells must not change: every column has a storage kind"""
    def __init__(self, ex, n, cols): self.n, self.cols = n, cols
    def col(self, ex, k):
        k = ex.force(k)
        if not is_strv(k): raise Unsupported('column %r' % (k,))
        return OColumn(self, ex.term(k, STR))
    def py_getattr(self, ex, n):
        if n == 'columns': return self.cols
        if n in ('loc', 'iloc'): return OLoc(self)
        if n == 'dtypes': return OTypes(self)
        if n == 'empty': return ex.mkbool(self.n == 0)
        raise Unsupported('attribute %s of a table' % n)
    def py_getitem(self, ex, k): return self.col(ex, k)
    def py_len(self, ex): return Sym(self.n, INT)
    def py_setitem(self, ex, k, v):
        c = self.col(ex, k)
        if isinstance(v, Opaque): raise Unsupported('a column is replaced by converted values')
        ex.prove('a column is only replaced by its own values', z3.And(z3.BoolVal(isinstance(v, OColumn) and v.t is self), v.c == c.c) if isinstance(v, OColumn) else False)
class OLoc(Ext):
    def __init__(self, t): self.t = t
    def py_setitem(self, ex, k, v):
        if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], slice) and k[0] == slice(None)): raise Unsupported('.loc assignment')
        self.t.py_setitem(ex, k[1], v)
class OTypes(Ext):
    def __init__(self, t): self.t = t
    def py_getitem(self, ex, k): return self.t.col(ex, k).py_getattr(ex, 'dtype')
class OColumn(Ext):
    """the values of a column, in any storage type"""
    def __init__(self, t, c): self.t, self.c = t, c
    def py_getattr(self, ex, n):
        if n == 'dtype': return OKind(Sym(z3.Function('kind', S_STR, S_STR)(self.c), STR))
        if n == 'astype': return Builtin(n, lambda ex, a, k: self if ex.force(a[0]) == 'category' and not k else Opaque('converted'))
        if n == 'apply': return Builtin(n, lambda ex, a, k: (list(a), dict(k)) and Opaque('converted'))      # the result of the conversion is a new column, which cannot be used
        if n in ('unique', 'drop_duplicates'): return Builtin(n, lambda ex, a, k: ODistinct(self))
        if n == 'nunique': return Builtin(n, lambda ex, a, k: ODistinct(self).py_len(ex))
        raise Unsupported('attribute %s of a column' % n)
    def py_len(self, ex): return Sym(self.t.n, INT)
class ODistinct(Ext):
    def __init__(self, c): self.c = c
    def py_len(self, ex):
        u = z3.Function('distinct_values', S_STR, I)(self.c.c); ex.assume(z3.And(0 < u, u <= self.c.t.n)); return Sym(u, INT)
class OKind(Ext):
    def __init__(self, k): self.k = k
    def py_getattr(self, ex, n):
        if n == 'kind': return self.k
        raise Unsupported('attribute %s of a dtype' % n)
class Optimize(Unit):
    """optimize_dataframe: no cell of the table changes"""
    name = 'optimize_dataframe'; budget = 60
    functions = ('trappy.base.Base.optimize_dataframe',)
    assumes = ('Series.apply makes a new series; a column stored as a category has the same values', 'the table has rows')
    def script(self, ex):
        ob = PyObj(ex, ex.src('trappy.base', 'Base')); n = ex.fresh(INT, 'rows').t; ex.assume(n > 0)
        t = OTable(ex, n, ex.fresh(ListS(STR), 'columns')); ob.attrs['data_frame'] = t
        try: ex.call(ex.getattr(ob, 'optimize_dataframe'), [], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the table stays the table', z3.BoolVal(ob.attrs.get('data_frame') is t))
UNITS = [Append(), Rows(), Build(), Optimize()]
