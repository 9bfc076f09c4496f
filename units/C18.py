"""C18: plot constraints partition the data by pivot and filter exactly."""
from units.tables import *

AC = 'trappy.plotter.AttrConf'
PVAL = '__TRAPPY_DEFAULT_PIVOT_VAL'; PIV = '__TRAPPY_PIVOT_DEFAULT'
class Allowed(FilterValue):
    """the allowed values of a column: a list, tuple or set"""
    def py_set(self, ex):
        M = ex.fresh_term(z3.ArraySort(S_PV, B), 'allowed'); x = z3.Const('ax', S_PV)
        ex.assume(z3.ForAll([x], z3.Select(M, x) == wanted(self.t, x), patterns=[z3.Select(M, x)]))
        return VSet(ex.newcell('set', comps=[M], shape=SetS(PV)))
    def py_iter(self, ex): raise Unsupported('iteration over the allowed values')
class Apply(Unit):
    name = 'Constraint'
    functions = tuple('trappy.plotter.Constraint.Constraint.' + f for f in ('__init__', '_apply', 'pivot_vals', 'populate_data_frame', '_uses_trappy_trace')) + ('trappy.plotter.Utils.decolonize',)
    budget = 200
    assumes = ('pandas: map applies a function to every cell, == compares cells, a series indexed with a mask holds exactly the rows where it is true, in order, and set() of a column is the set of its cells',
               'the name of an event has no colon at its ends that matters (decolonize is str.strip(":"))', 'no cell of the pivot column is missing, no filter allows the missing value, no cell is equal to the marker of the default pivot, and the numbers in the pivot column are of one type; no window is given')
    def setup(self, ex):
        install(ex); ex.templates.append(self.inv)
        ex.specs['trappy.plotter.Utils.decolonize'] = ex.specs['trappy.plotter.Constraint.decolonize'] = lambda ex, a, k: a[0]
    def inv(self, ctx):
        out = list(self.F.inv(ctx)); ex = ctx.ex; x = z3.Const('px', S_PV); i = z3.Int('ri')
        if ctx.seq is None: return out
        for l in ctx.labels:
            sh = ctx.info.mod[l]
            if l[0] == 'c' and isinstance(sh, DictS) and isinstance(sh.v, SeriesS) and sh.k == PV:
                inv = ctx.seq.inv
                if inv is None: continue
                def groups(c, l=l):
                    dom, sel, val = c.cur(l).cell.comps; inv = c.seq.inv
                    return z3.And(z3.ForAll([x], z3.Select(dom, x) == z3.And(inv.member(x), inv.pos(x) < c.k, self.hit(x)), patterns=[z3.Select(dom, x)]),
                                  z3.ForAll([x, i], z3.Implies(z3.Select(dom, x), z3.Select(z3.Select(sel, x), i) == self.In(i, x)), patterns=[z3.Select(z3.Select(sel, x), i)]),
                                  z3.ForAll([x, i], z3.Implies(z3.And(z3.Select(dom, x), self.In(i, x)), z3.Select(z3.Select(val, x), i) == self.T.cell(i, self.column)), patterns=[z3.Select(z3.Select(val, x), i)]))
                out.append((('must', 'the groups of the pivot values so far', l), groups))
        return out
    def script(self, ex):
        self.T = T = table(ex); fr = Frame(ex, T)
        col = ex.fresh(STR, 'column'); self.column = col.t
        default = ex.choose('no pivot')
        pv = lit(PIV) if default else ex.fresh(STR, 'pivot').t
        if not default: ex.assume(pv != lit(PIV))
        self.F = F = Filters(ex, T.cell, T.col, skip=lambda key: key == pv, shape=U('FilterValue', Allowed))
        dom, val = F.d.cell.comps; ff, fx = z3.Const('cff', FV.sort), z3.Const('cxx', S_PV); ex.assume(z3.ForAll([ff, fx], z3.Implies(wanted(ff, fx), z3.Not(S_PV.is_pnone(fx))), patterns=[wanted(ff, fx)]))
        x = z3.Const('cx', S_STR); i = z3.Int('ci'); y = z3.Const('cy', S_PV); f = z3.Const('cf', FV.sort)
        ex.assume(z3.ForAll([f], z3.And(islist(f), z3.Not(iscall(f))), patterns=[islist(f)])); ex.assume(z3.ForAll([f], z3.Not(iscall(f)), patterns=[iscall(f)]))
        ex.assume(z3.ForAll([i, x], z3.And(z3.Or(x != pv, z3.Not(S_PV.is_pnone(T.cell(i, x)))), T.cell(i, x) != S_PV.pstr(lit(PVAL))), patterns=[T.cell(i, x)]))
        if not default: ex.assume(z3.ForAll([i], z3.Or(S_PV.is_pstr(T.cell(i, pv)), z3.If(z3.Bool('float_pivot'), S_PV.is_preal(T.cell(i, pv)), S_PV.is_pint(T.cell(i, pv)))), patterns=[T.cell(i, pv)]))
        # In(i, v): row i belongs to the group of pivot value v; hit(v): some row does
        self.In = z3.Function('in_group', I, S_PV, B); self.hit = z3.Function('has_data', S_PV, B); w = z3.Function('some_row', S_PV, I)
        pf = z3.Select(val, pv)
        cond = z3.And(0 <= i, i < T.n, F.passes(F.n, i))
        if default: cond = z3.And(cond, y == S_PV.pstr(lit(PVAL)))
        else: cond = z3.And(cond, T.col(pv), T.cell(i, pv) == y, z3.Implies(z3.Select(dom, pv), wanted(pf, y)))
        ex.assume(z3.ForAll([i, y], self.In(i, y) == cond, patterns=[self.In(i, y)]))
        ex.assume(z3.ForAll([y], z3.Implies(self.hit(y), self.In(w(y), y)), patterns=[self.hit(y)]))
        ex.assume(z3.ForAll([i, y], z3.Implies(self.In(i, y), self.hit(y)), patterns=[self.In(i, y)]))
        if not default: ex.assume(z3.ForAll([i], self.In(i, T.cell(i, pv)) == z3.And(0 <= i, i < T.n, F.passes(F.n, i), T.col(pv), z3.Implies(z3.Select(dom, pv), wanted(pf, T.cell(i, pv)))), patterns=[T.cell(i, pv)]))
        else: ex.assume(z3.ForAll([i], self.In(i, S_PV.pstr(lit(PVAL))) == z3.And(0 <= i, i < T.n, F.passes(F.n, i)), patterns=[F.passes(F.n, i)]))
        ev = ex.fresh(STR, 'event')
        if ex.choose('data of a trace'): data, tmpl = TraceOf(ev, fr), Event(ev)
        else: data, tmpl = fr, None
        ti = ex.fresh(INT, 'trace_index')
        try: c = ex.call(ex.src('trappy.plotter.Constraint', 'Constraint'), [data, PIV if default else Sym(pv, STR), col, tmpl, ti, F.d, None], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the constraint remembers its column and trace', z3.And(tbool(ex.eq(ex.getattr(c, 'column'), col)), tbool(ex.eq(ex.getattr(c, 'trace_index'), ti))))
        r = ex.getattr(c, 'result')
        if not isinstance(r, VDict): raise Unsupported('result')
        y = ex.fresh(PV, 'v').t; i = ex.fresh(INT, 'i').t
        keys = r.cell.items is not None
        ds = DictS(PV, SeriesS(T.name, PV))
        if keys and not r.cell.items or (not keys and isinstance(r.cell.shape.k, BotS)): d = None
        else: d = ex.dict_comps(r, ds)
        has = z3.BoolVal(False) if d is None else z3.Select(d[0], y)
        ex.prove('there is a group exactly for the pivot values with data', has == z3.And(T.col(col.t), self.hit(y)))
        if d is not None:
            ex.prove('a group holds exactly the rows with its pivot value and allowed values in the filtered columns', z3.Implies(has, z3.Select(z3.Select(d[1], y), i) == self.In(i, y)))
            ex.prove('the entries are those of the data column', z3.Implies(z3.And(has, self.In(i, y)), z3.Select(z3.Select(d[2], y), i) == T.cell(i, col.t)))

TRACE, TEMPLATE = U('TraceData'), U('Template')
CON = TupleS(TRACE, STR, STR, TEMPLATE, INT, PV)
class Manager(Unit):
    """which constraints a manager builds"""
    name = 'ConstraintManager'
    functions = tuple('trappy.plotter.Constraint.ConstraintManager.' + f for f in ('__init__', '_expand', '_populate_zip_constraints', '_populate_constraints')) + ('trappy.plotter.Utils.normalize_list', 'trappy.utils.listify')
    budget = 250
    assumes = ('Constraint by its contract (above): here only its arguments matter',)
    def setup(self, ex):
        ex.specs['trappy.plotter.Constraint.Constraint'] = self.build
        ex.templates.append(self.inv)
    def build(self, ex, a, k):
        names = ('trappy_trace', 'pivot', 'column', 'template', 'trace_index', 'filters', 'window')
        d = dict(zip(names, a)); d.update(k)
        ex.prove('every constraint gets the filters, pivot and window', z3.And(tbool(d['filters'] is self.flt and d['window'] is self.win), tbool(ex.eq(d['pivot'], self.piv))))
        return (d['trappy_trace'], d['pivot'], d['column'], d['template'], d['trace_index'], Sym(S_PV.pnone, PV))
    def at(self, ex, comps, q):
        """the q-th constraint is the one wanted"""
        t, c, m, ti = self.want(q)
        return z3.And(z3.Select(comps[1], q) == t, z3.Select(comps[3], q) == c, z3.Select(comps[4], q) == m, z3.Select(comps[5], q) == ti)
    def inv(self, ctx):
        out = []; ex = ctx.ex; q = z3.Int('qq')
        if ctx.seq is None: return out
        for l in ctx.labels:
            sh = ctx.info.mod[l]
            if (l[0] == 'c' or l[0] == 'a') and isinstance(sh, ListS) and sh.elem == CON:
                def f(c, l=l):
                    L = c.cur(l); comps = L.cell.comps
                    n = c.k if not self.permute else (self.no(ex.loops[0].k, c.k) if ex.loops and ex.loops[0] is not c else self.no(c.k, 0))
                    return z3.And(comps[0] == n, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < comps[0]), self.at(ex, comps, q)), patterns=[z3.Select(x, q) for x in (comps[1], comps[3], comps[4], comps[5])]))
                out.append((('must', 'constraints so far', l), f))
        return out
    def script(self, ex):
        def arg(sh, name, few):
            """one value or a list of any length but 0"""
            if ex.choose('one ' + name): v = ex.fresh(sh, name); return v, z3.IntVal(1), (lambda q, v=v: ex.term(v, sh))
            L = ex.fresh(ListS(sh), name + 's'); n, A = L.cell.comps
            ex.assume(n >= 1)
            return L, n, (lambda q, A=A: z3.Select(A, q))
        self.permute = ex.choose('every trace with every column')
        t, a, T = arg(TRACE, 'trace', 1); c, b, C = arg(STR, 'column', 1); m, p, M = arg(TEMPLATE, 'template', 1)
        self.piv = ex.fresh(STR, 'pivot'); self.flt = Opaque('filters'); self.win = Opaque('window')
        N = z3.If(z3.And(a >= b, a >= p), a, z3.If(b >= p, b, p))
        ok = z3.And(*[z3.Or(x == 1, x == N) for x in (a, b, p)]); ok = z3.Or(ok, z3.And(a == b, b == p))
        pick = lambda f, n, q: f(z3.If(z3.And(n == 1, N > 1), 0, q))
        idx = lambda q: z3.If(z3.And(a == 1, N > 1), 0, q)
        NN = ex.fresh_term(I, "positions"); ex.assume(NN == N); N = NN
        if self.permute:
            # no(k, j): number of the constraint of trace k and column j, the base(k) + j-th
            F = z3.Function; self.no, base, row, cl = F('number', I, I, I), F('base', I, I), F('trace_of', I, I), F('column_of', I, I); k, j = z3.Ints('pk pj')
            ex.assume(z3.And(base(0) == 0, base(1) == N))
            ex.assume(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, 0 <= j), z3.And(self.no(k, j) == base(k) + j, base(k + 1) == base(k) + N)), patterns=[self.no(k, j)]))
            ex.assume(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, 0 <= j, j < N), z3.And(row(self.no(k, j)) == k, cl(self.no(k, j)) == j)), patterns=[self.no(k, j)]))
            ex.assume(self.no(N, 0) == base(N))
        self.want = (lambda q: (pick(T, a, row(q)), pick(C, b, cl(q)), pick(M, p, row(q)), row(q))) if self.permute else lambda q: (pick(T, a, q), pick(C, b, q), pick(M, p, q), idx(q))
        try: o = ex.call(ex.src('trappy.plotter.Constraint', 'ConstraintManager'), [t, c, m, self.piv, self.flt], dict(window=self.win, zip_constraints=not self.permute))
        except PyRaise as e:
            ex.prove('only incompatible lengths are rejected', z3.And(tbool(e.exc.name == 'RuntimeError'), z3.Not(ok))); return
        ex.prove('incompatible lengths are rejected', ok)
        L = ex.getattr(o, '_constraints'); comps = ex.list_comps(L, ListS(CON))
        q = ex.fresh(INT, 'q').t
        if self.permute:
            ex.prove('one constraint for every trace and column', comps[0] == base(N))
            ex.prove('every trace is paired with every column, in order', z3.Implies(z3.And(0 <= q, q < comps[0]), self.at(ex, comps, q))); return
        ex.prove('one constraint per position', comps[0] == N)
        ex.prove('the i-th constraint pairs the i-th trace, column and event, those of length one being repeated', z3.Implies(z3.And(0 <= q, q < comps[0]), self.at(ex, comps, q)))

class Con(ExtU):
    def py_getattr(self, ex, n):
        if n == 'result': return Result(self)
        return super().py_getattr(ex, n)
class Result(Ext):
    """the groups of a constraint, by pivot value"""
    def __init__(self, c): self.c = c
    def keys(self, ex): return uf(ex, 'pivots_of', [self.c], ListS(PV))
    def py_getattr(self, ex, n):
        if n == 'keys': return Builtin(n, lambda ex, a, k: self.keys(ex))
        return super().py_getattr(ex, n)
    def py_iter(self, ex): return ex.seqof(self.keys(ex))
class Sorted(Ext):
    """the members of a set in sorted order"""
    def __init__(self, s): self.s = s
    def py_len(self, ex): return Sym(z3.Int('members'), INT)
    def py_iter(self, ex): return Seq(n=Sym(z3.Int('members'), INT), get=lambda j: Sym(z3.Function('sorted_member', I, S_PV)(j), PV))
CONU = U('ConstraintObj', Con)
class Pivots(Unit):
    name = 'generate_pivots'
    functions = ('trappy.plotter.Constraint.ConstraintManager.generate_pivots',)
    assumes = ('sorted lists exactly the members of a set once, in order; with int or int(x, 16) as the key it may raise ValueError or TypeError',)
    def setup(self, ex):
        ex.specs['builtins.sorted'] = self.sort; ex.templates.append(self.inv)
    def sort(self, ex, a, k):
        s = ex.force(a[0])
        if not isinstance(s, VSet): raise Unsupported('sorted of no set')
        if k.get('key') is not None:
            if ex.choose('the key cannot be computed'): ex.raise_('ValueError' if ex.choose('ValueError') else 'TypeError', 'invalid literal')
        self.keys.append(k.get('key'))
        if k.get('reverse', False) is not False: raise Unsupported('reverse')
        return Sorted(s)
    def inv(self, ctx):
        out = []; q = z3.Int('qq'); x = z3.Const('px', S_PV)
        if ctx.seq is None: return out
        for l in ctx.labels:
            if l[0] in 'cv' and ctx.info.mod[l] == ListS(PV):
                def f(c, l=l):
                    n, A = c.cur(l).cell.comps
                    return z3.And(n == self.tot(c.k), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), self.in_(c.k, z3.Select(A, q))), patterns=[z3.Select(A, q)]),
                                  z3.ForAll([x], z3.Implies(self.in_(c.k, x), z3.And(0 <= self.at(c.k, x), self.at(c.k, x) < n, z3.Select(A, self.at(c.k, x)) == x)), patterns=[self.in_(c.k, x)]))
                out.append((('must', 'the pivot values so far', l), f))
        return out
    def script(self, ex):
        F = z3.Function; self.keys = []; ex.assume(z3.Int('members') >= 0)
        ob = PyObj(ex, ex.src('trappy.plotter.Constraint', 'ConstraintManager'))
        L = ex.fresh(ListS(CONU), 'constraints'); N, A = L.cell.comps; ob.attrs['_constraints'] = L
        nt = ex.fresh(INT, 'traces'); ex.assume(nt.t >= 1); ob.attrs['_lens'] = ex.mklist([nt, ex.fresh(INT, 'columns'), ex.fresh(INT, 'templates')])
        # in_(k, x): one of the first k constraints has a group for x; at(k, x): where it is in the list of all keys
        self.in_, self.at, self.tot = F('offered', I, S_PV, B), F('position', I, S_PV, I), F('keys_before', I, I)
        k, j = z3.Ints('k j'); x = z3.Const('x', S_PV)
        kn, ka = Result(Con(z3.Select(A, k), CONU)).keys(ex).cell.comps
        has = F('has_group', I, S_PV, B); w = F('key_no', I, S_PV, I)
        ex.assume(z3.ForAll([k, j], z3.Implies(z3.And(0 <= j, j < kn), has(k, z3.Select(ka, j))), patterns=[z3.Select(ka, j)]))
        ex.assume(z3.ForAll([k, x], z3.Implies(has(k, x), z3.And(0 <= w(k, x), w(k, x) < kn, z3.Select(ka, w(k, x)) == x)), patterns=[has(k, x)]))
        ex.assume(z3.ForAll([k], kn >= 0, patterns=[kn])); ex.assume(self.tot(0) == 0)
        ex.assume(z3.ForAll([k], z3.Implies(k >= 0, self.tot(k + 1) == self.tot(k) + kn), patterns=[kn]))
        ex.assume(z3.ForAll([x], z3.Not(self.in_(0, x)), patterns=[self.in_(0, x)]))
        ex.assume(z3.ForAll([k, x], z3.Implies(k >= 0, z3.And(self.in_(k + 1, x) == z3.Or(self.in_(k, x), has(k, x)), self.at(k + 1, x) == z3.If(self.in_(k, x), self.at(k, x), self.tot(k) + w(k, x)))), patterns=[z3.MultiPattern(self.in_(k + 1, x), kn)]))
        ex.assume(z3.ForAll([k, x], z3.Implies(z3.And(k >= 0, z3.Or(self.in_(k, x), has(k, x))), self.in_(k + 1, x)), patterns=[z3.MultiPattern(self.in_(k, x), kn), has(k, x)]))
        try: r, cnt = ex.call(ex.getattr(ob, 'generate_pivots'), [], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the sorted pivot values are returned', isinstance(r, Sorted)); 
        if not isinstance(r, Sorted): return
        s = r.s; y = ex.fresh(PV, 'v').t
        mem = ex.contains(s, Sym(y, PV)) if not (s.cell.items is None and isinstance(s.cell.shape.elem, BotS)) else z3.BoolVal(False)
        ex.prove('they are the union over all constraints', tbool(mem) == self.in_(N, y))
        ex.prove('their number is returned', ex.eq(cnt, Sym(z3.Int('members'), INT)))
UNITS = [Apply(), Conjunction(), Manager(), Pivots()]
