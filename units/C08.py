from units.opening import *

class NFrame(Ext):
    """an event table: rows, their times, and whether the times are the index or a column; cells of other columns are never touched by the
    operations modelled here"""
    def __init__(self, n, tm, indexed=True, rows='rows'): self.n, self.tm, self.indexed, self.rows = n, tm, indexed, rows
    def py_len(self, ex): return Sym(self.n, INT)
    def py_truth(self, ex): ex.raise_('ValueError', 'ambiguous')
    def same(self, **kw):
        d = dict(n=self.n, tm=self.tm, indexed=self.indexed, rows=self.rows); d.update(kw); return NFrame(**d)
    def move(self, ex, k, **kw):
        if k.get('inplace') is True: self.__dict__.update(kw); return None
        if k.get('inplace') not in (None, False): raise Unsupported('inplace')
        return self.same(**kw)
    def py_getattr(self, ex, n):
        B1 = lambda f: Builtin('DataFrame.' + n, f)
        if n == 'empty': return ex.mkbool(self.n == 0)
        if n == 'copy': return B1(lambda ex, a, k: self.same())
        if n == 'reset_index':
            def f(ex, a, k):
                if a or set(k) - {'inplace', 'drop'}: raise Unsupported('reset_index')
                if not self.indexed: raise Unsupported('reset_index twice')
                if k.get('drop'): return self.move(ex, k, indexed=False, tm=None)
                return self.move(ex, k, indexed=False)
            return B1(f)
        if n == 'set_index':
            def f(ex, a, k):
                if set(k) - {'inplace'} or len(a) != 1: raise Unsupported('set_index')
                if a[0] != 'Time' or self.indexed or self.tm is None: ex.raise_('KeyError', 'Time')
                return self.move(ex, k, indexed=True)
            return B1(f)
        if n == 'index':
            if not self.indexed: raise Unsupported('positional index')
            return Times(self.n, self.tm, True)
        return super().py_getattr(ex, n)
    def py_setattr(self, ex, n, v):
        if n == 'index' and self.indexed and isinstance(v, Times) and v.named: self.tm = v.tm; return
        super().py_setattr(ex, n, v)
    def py_getitem(self, ex, k):
        if k == 'Time' and not self.indexed and self.tm is not None: return Times(self.n, self.tm)
        raise Unsupported('column %r' % (k,))
    def py_setitem(self, ex, k, v):
        if k == 'Time' and not self.indexed and isinstance(v, Times): self.tm = v.tm; return
        raise Unsupported('column assignment')
class Times(Ext):
    """a column or index of times"""
    def __init__(self, n, tm, named=False): self.n, self.tm, self.named = n, tm, named
    def py_binop(self, ex, op, o, rev):
        if isinstance(o, VOpt) or isinstance(o, Sym) and o.s == PV: o = ex.force(o)
        if not is_num(o): raise Unsupported('times %s %r' % (op, o))
        tm = self.tm; f = (lambda i: ex.term(ex.binop(op, o, Sym(tm(i), REAL)), REAL)) if rev else (lambda i: ex.term(ex.binop(op, Sym(tm(i), REAL), o), REAL))
        return Times(self.n, f, self.named)
    def py_getitem(self, ex, k):
        k = ex.force(k)
        if k not in (0, -1): raise Unsupported('times[%r]' % (k,))
        if not ex.decide(self.n > 0): ex.raise_('IndexError', 'index out of bounds')
        return Sym(self.tm(z3.IntVal(0) if k == 0 else self.n - 1), REAL)
    def py_len(self, ex): return Sym(self.n, INT)
    def py_getattr(self, ex, n):
        if n == 'values': return Times(self.n, self.tm)
        return super().py_getattr(ex, n)
class NormalizeOne(Unit):
    """one table: every time is reduced by the base time, nothing else changes"""
    name = 'Base.normalize_time'; functions = ('trappy.base.Base.normalize_time',); budget = 60
    assumes = ('pandas reset_index / set_index move the times between the index and the column Time and change nothing else; subtraction is element-wise', 'times are treated as reals')
    def script(self, ex):
        for kind in ('base time',):
            n = ex.fresh(INT, 'rows').t; ex.assume(n >= 0); T = z3.Function('time', I, R)
            ob = PyObj(ex, ex.src('trappy.base', 'Base')); b = ex.fresh(REAL, 'base')
            ob.attrs['data_frame'] = NFrame(n, lambda i: T(i))
            try: ex.call(ex.getattr(ob, 'normalize_time'), [b], {})
            except PyRaise as x: ex.prove('never fails (%s)' % x.exc.name, False); return
            f = ob.attrs['data_frame']; q = ex.fresh(INT, 'q').t
            if not isinstance(f, NFrame): raise Unsupported('table replaced')
            ex.prove('the table is indexed by time again', f.indexed)
            ex.prove('the rows and their order are kept', f.n == n if f.rows == 'rows' else False)
            ex.prove('every time is the original time minus the base time', z3.Implies(z3.And(0 <= q, q < n), f.tm(q) == T(q) - b.t) if f.indexed else False)
class NormalizeAll(Unit):
    """all tables of a trace are normalized exactly once by one base time"""
    name = 'BareTrace._normalize_time'; functions = ('trappy.bare_trace.BareTrace._normalize_time',); budget = 60
    def setup(self, ex):
        def norm(ex, c, a, k):
            n = getg(ex, 'norm'); ex.ghost_set('norm', Sym(z3.Store(n, c, z3.Select(n, c) + 1), AN))
            ex.ghost_set('base', Sym(z3.Store(getg(ex, 'base'), c, ex.term(a[0], REAL)), AR))
        ex.parser_methods = dict(normalize_time=norm)
        ex.templates.append(self.inv)
    def inv(self, ctx):
        if ctx.seq is None or ('gh', 'norm') not in ctx.labels or ctx.seq.inv is None: return []
        c = z3.Const('ic', S_P); ex = ctx.ex; b = self.ob
        done = lambda x: z3.And(self.mem(c), self.pos(c) < x.k)
        return [(('must', 'normalized once so far'), lambda x: z3.ForAll([c], z3.Select(getg(ex, 'norm'), c) == z3.If(done(x), 1, 0), patterns=[z3.Select(getg(ex, 'norm'), c)])),
                (('must', 'by the same base time'), lambda x: z3.ForAll([c], z3.Implies(done(x), z3.Select(getg(ex, 'base'), c) == self.bt), patterns=[z3.Select(getg(ex, 'base'), c)]))]
    def script(self, ex):
        self.ob = ob = trace_ob(ex); b0, b1 = ex.fresh(REAL, 'base'), ex.fresh(REAL, 'given')
        l, n, at, self.pos, self.mem = parsers(ex)
        ex.ghosts['norm'] = Sym(z3.K(S_P, z3.IntVal(0)), AN); ex.ghosts['base'] = ex.fresh(AR, 'bases'); ex.ghosts['cached'] = ex.fresh(AB, 'cached')
        ob.attrs.update(trace_classes=l, basetime=b0, normalized_time=False)
        given = ex.choose('base time given'); self.bt = b1.t if given else b0.t
        try: ex.call(ex.getattr(ob, '_normalize_time'), [b1] if given else [], {})
        except PyRaise as x: ex.prove('never fails (%s)' % x.exc.name, False); return
        c = ex.fresh(P, 'anyparser').t
        ex.prove('every table is normalized exactly once, no other is', z3.Select(getg(ex, 'norm'), c) == z3.If(self.mem(c), 1, 0))
        ex.prove("all tables are normalized by the trace's base time", z3.Implies(self.mem(c), z3.Select(getg(ex, 'base'), c) == self.bt))
        ex.prove('the base time is kept', ex.term(ob.attrs['basetime'], REAL) == self.bt)
AR = Scalar('BY_PARSER_R', z3.ArraySort(S_P, R))
rows_, T_ = z3.Function('ev_rows', S_P, I), z3.Function('ev_time', S_P, I, R)
first_ = lambda c: T_(c, z3.IntVal(0))
last_ = lambda c: T_(c, rows_(c) - 1)
class Duration(Unit):
    """the duration is the largest last time minus the smallest first time of the tables that have rows"""
    name = 'get_duration'; functions = ('trappy.bare_trace.BareTrace.get_duration',); budget = 90
    assumes = ('tables are sorted by time (C02): their first and last entries are their extreme times',)
    def setup(self, ex): ex.templates.append(self.inv)
    def inv(self, ctx):
        ex = ctx.ex; out = []; j, i = z3.Ints('dj di')
        if ctx.seq is None or ctx.seq.inv is None: return []
        for l in ctx.labels:
            sh = ctx.info.mod[l]
            if isinstance(sh, ListS) and sh.elem in (REAL, INT):
                out.append((('must', 'one entry per table with rows', l), lambda c, l=l, sh=sh: self.comps(ex, c, l, sh)[0] == self.cnt(c.k)))
                for nm, f in (('first', first_), ('last', last_)):
                    out.append((('times', nm, l), lambda c, l=l, sh=sh, f=f: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.cnt(c.k)), z3.And(0 <= self.src(j), self.src(j) < c.k, self.ne(self.src(j)), z3.Select(self.comps(ex, c, l, sh)[1], j) == f(self.at(self.src(j))))), patterns=[self.src(j)])))
        out.append((('must', 'tables so far'), lambda c: z3.And(self.cnt(c.k) >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.k, self.ne(i)), z3.And(0 <= self.cnt(i), self.cnt(i) < self.cnt(c.k), self.src(self.cnt(i)) == i)), patterns=[self.at(i)]))))
        return out
    def comps(self, ex, c, l, sh):
        v = c.cur(l); v = v if isinstance(v, VList) else VList(v)
        return ex.list_comps(v, sh) if v.cell.items is None else ex.pack(v, sh)
    def script(self, ex):
        ob = trace_ob(ex, 'BareTrace', 'trappy.bare_trace')
        l, n, self.at, self.pos, self.mem = parsers(ex); i, j = z3.Ints('di dj')
        at = self.at
        def frame(ex, c): return NFrame(rows_(c), lambda i: T_(c, i))
        ex.parser_frames = frame
        ex.assume(z3.ForAll([i], rows_(at(i)) >= 0, patterns=[at(i)]))
        self.ne = lambda i: rows_(at(i)) > 0
        self.cnt, self.src = z3.Function('nonempty_before', I, I), z3.Function('nonempty_table', I, I)
        ex.assume(self.cnt(0) == 0)
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(self.cnt(i + 1) == self.cnt(i) + z3.If(self.ne(i), 1, 0), z3.Implies(self.ne(i), self.src(self.cnt(i)) == i))), patterns=[at(i)]))
        ob.attrs.update(trace_classes=l)
        try: r = ex.call(ex.getattr(ob, 'get_duration'), [], {})
        except PyRaise as x: ex.prove('never fails (%s)' % x.exc.name, False); return
        r = ex.term(r, REAL); q, p = ex.fresh(INT, 'q').t, ex.fresh(INT, 'p').t
        inr = lambda x: z3.And(0 <= x, x < n, self.ne(x))
        ex.assume(self.src(z3.IntVal(0)) == self.src(z3.IntVal(0)))
        ex.prove('zero if no table has rows', z3.Or(r == 0, z3.Exists([i], inr(i), patterns=[at(i)])))
        ex.prove('at least the distance between any two events', z3.Implies(z3.And(inr(q), inr(p), at(q) == at(q), at(p) == at(p)), r >= last_(at(q)) - first_(at(p))))
        ex.prove('the distance between two events', z3.Implies(inr(q), z3.Exists([i, j], z3.And(inr(i), inr(j), r == last_(at(i)) - first_(at(j))), patterns=[z3.MultiPattern(at(i), at(j))])))
class Shift(Unit):
    """shifting all times by one base time changes no difference of times, hence no duration"""
    name = 'differences'; functions = (); budget = 30
    def script(self, ex):
        t = z3.Function('t', I, R); s = z3.Function('s', I, R); b = ex.fresh(REAL, 'b').t; i = z3.Int('i')
        ex.assume(z3.ForAll([i], s(i) == t(i) - b, patterns=[s(i), t(i)]))
        x, y = ex.fresh(INT, 'x').t, ex.fresh(INT, 'y').t
        ex.prove('time differences are unchanged', s(x) - s(y) == t(x) - t(y))
        ex.prove('the order of times is unchanged', (s(x) < s(y)) == (t(x) < t(y)))
UNITS = [ApplyUser('C08'), DoParse('C08'), NormalizeOne(), NormalizeAll(), Duration(), Shift()]
