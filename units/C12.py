"""C12: apply_callbacks delivers every row of every selected table once, in line order."""
from pyvc.unit import *

S_DF, S_ROW, S_IT = sort('DF'), sort('Row'), sort('RowIter')
colno = z3.Function('colno', S_DF, S_STR, I)         # number of the column with a name, -1 if there is none
lc = lambda d: colno(d, lit('__line'))
mkiter = z3.Function('rows_iter', S_DF, S_IT)
df_of = z3.Function('df_of', S_STR, S_DF)            # the table of an event
nrows = z3.Function('nrows', S_DF, I)
ncols = z3.Function('ncols', S_DF, I)
colname = z3.Function('colname', S_DF, I, S_STR)     # name of column i (0-based)
row_df = z3.Function('row_df', S_ROW, S_DF); row_i = z3.Function('row_i', S_ROW, I); mkrow = z3.Function('mkrow', S_DF, I, S_ROW)
cell = z3.Function('cell', S_DF, I, I, S_PV)         # cell(df, row, position): position 0 is the index
line = z3.Function('line', S_DF, I, I)
it_df = z3.Function('it_df', S_IT, S_DF)
IX = z3.IntVal

class Row(ExtU):
    def py_getitem(self, ex, k):
        d, i = row_df(self.t), row_i(self.t)
        j = ex.term(k, INT)
        if not ex.decide(z3.And(0 <= j, j <= ncols(d))): ex.raise_('IndexError', 'tuple index out of range')
        if ex.decide(z3.And(lc(d) >= 0, j == lc(d) + 1)): return Sym(line(d, i), INT)
        return Sym(cell(d, i, j), PV)
    def py_len(self, ex): return Sym(ncols(row_df(self.t)) + 1, INT)
    def py_iter(self, ex):
        return Seq(n=Sym(ncols(row_df(self.t)) + 1, INT), get=lambda j: Sym(cell(row_df(self.t), row_i(self.t), j), PV))
ROW = U('Row', Row)
POS = Scalar('POSA', z3.ArraySort(S_DF, I))

class RowIter(ExtU):
    def py_next(self, ex):
        p = ex.ghosts['pos'].t; d = it_df(self.t); q = z3.Select(p, d)
        if not ex.decide(q < nrows(d)): return UNBOUND
        ex.ghost_set('pos', Sym(z3.Store(p, d, q + 1), POS))
        return Row(mkrow(d, q), ROW)
ITER = U('RowIter', RowIter)
def f_next(ex, a, k):
    if isinstance(a[0], RowIter):
        r = a[0].py_next(ex)
        if r is UNBOUND:
            if len(a) > 1: return a[1]
            ex.raise_('StopIteration')
        return r
    return lib['builtins.next'](ex, a, k)

class Names(Ext):
    """the column names of a table as a list, possibly with a name put in front"""
    def __init__(self, d, pre=()): self.d, self.pre = d, tuple(pre)
    def py_len(self, ex): return Sym(ncols(self.d) + len(self.pre), INT)
    def name(self, j):
        t = colname(self.d, j - len(self.pre))
        for i, x in reversed(list(enumerate(self.pre))): t = z3.If(j == i, lit(x), t)
        return t
    def py_iter(self, ex):
        s = Seq(n=Sym(ncols(self.d) + len(self.pre), INT), get=lambda j: Sym(self.name(j), STR))
        p = self.pre
        if p in ((), ('Index',)):       # the names are distinct and none is Index (assumed)
            D = self.d
            s.inv = Inverse(self.name, lambda k: z3.If(k == lit('Index'), 0, colno(D, k) + 1) if p else colno(D, k), lambda k: z3.Or(k == lit('Index'), colno(D, k) >= 0) if p else colno(D, k) >= 0)
        return s
    def py_binop(self, ex, op, o, rev):
        if op == '+' and rev and isinstance(o, VList):
            it = ex.need_items(o)
            if all(isinstance(x, str) for x in it): return Names(self.d, tuple(it) + self.pre)
        raise Unsupported('operator on column names')
    def py_getitem(self, ex, k): return ex.getitem(ex.seq_to_list(self.py_iter(ex)), k)
    def py_getattr(self, ex, n):
        if n == 'index':
            def index(ex, a, k):
                t = ex.term(a[0], STR)
                if self.pre: raise Unsupported('index in extended names')
                if not ex.decide(colno(self.d, t) >= 0): ex.raise_('ValueError', 'not in list')
                return Sym(colno(self.d, t), INT)
            return Builtin(n, index)
        return super().py_getattr(ex, n)
class Columns(Ext):
    def __init__(self, d): self.d = d
    def py_iter(self, ex): return Names(self.d).py_iter(ex)
    def py_len(self, ex): return Sym(ncols(self.d), INT)
    def py_getattr(self, ex, n):
        if n in ('tolist', 'to_list'): return Builtin(n, lambda ex, a, k: Names(self.d))
        return super().py_getattr(ex, n)
class DF(ExtU):
    def py_len(self, ex): return Sym(nrows(self.t), INT)
    def py_getattr(self, ex, n):
        if n == 'empty': return ex.mkbool(z3.Or(nrows(self.t) == 0, ncols(self.t) == 0))
        if n == 'columns': return Columns(self.t)
        if n == 'itertuples':
            def mk(ex, a, k):
                # a new iterator at the first row; the model has one iterator per table, so only one call site is allowed
                if a or k: raise Unsupported('itertuples with arguments')
                if not ex.binders: raise Unsupported('itertuples outside a comprehension over distinct tables')
                if len(ex.loops): raise Unsupported('itertuples in a loop')
                if ex.itersite not in (None, ex.curpos): raise Unsupported('several itertuples calls')
                ex.itersite = ex.curpos
                return RowIter(mkiter(self.t), ITER)
            return Builtin(n, mk)
        return super().py_getattr(ex, n)
DFS = U('DF', DF)
class EventObj(ExtU):
    def py_getattr(self, ex, n):
        if n == 'data_frame': return DF(df_of(self.t), DFS)
        return super().py_getattr(ex, n)
EV = U('EventOf', EventObj)
ev_name = z3.Function('ev_name', sort('EventOf'), S_STR)

class Trace(Ext):
    def py_getattr(self, ex, n):
        raise Unsupported('trace attribute ' + n)
class EventByName(Ext):
    def __init__(self, name): self.name = name
    def py_getattr(self, ex, n):
        if n == 'data_frame': return DF(df_of(self.name), DFS)
        return super().py_getattr(ex, n)
def f_getattr(ex, a, k):
    if isinstance(a[0], Trace): return EventByName(ex.term(a[1], STR))
    return lib['builtins.getattr'](ex, a, k)

CNT = Scalar('CNT', z3.ArraySort(S_STR, I))
class CB(ExtU):
    """a callback: records the row it is given"""
    def py_call(self, ex, a, k):
        e = cb_event(self.t); d = df_of(e)
        cnt, last = ex.ghosts['cnt'].t, ex.ghosts['last'].t
        i = z3.Select(cnt, e)
        row = a[0]
        if not isinstance(row, VDict): raise Unsupported('callback argument')
        ds = DictS(STR, PV)
        comps = ex.dict_comps(row, ds) if row.cell.items is None else ex.pack(row, ds)
        c = z3.Int(ex.fresh_name('cc'))
        ex.prove('the callback belongs to a row that was not delivered yet', z3.And(0 <= i, i < nrows(d)))
        ex.prove("the callback gets the row's time", z3.And(z3.Select(comps[0], lit('Index')), z3.Select(comps[1], lit('Index')) == cell(d, i, 0)))
        ex.prove("the callback gets every column of that row", z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < ncols(d)), z3.And(z3.Select(comps[0], colname(d, c)), z3.Select(comps[1], colname(d, c)) == cell(d, i, c + 1))), patterns=[colname(d, c)]))
        x = z3.Const(ex.fresh_name('cx'), S_STR)
        ex.prove('the callback gets nothing else', z3.Implies(z3.And(z3.Select(comps[0], x), x != lit('Index')), colno(d, x) >= 0))
        ex.prove('calls are made in line order', line(d, i) > last)
        ex.ghost_set('cnt', Sym(z3.Store(cnt, e, i + 1), CNT))
        ex.ghost_set('last', Sym(line(d, i), INT))
        return ex.fresh(PV, 'cbret')
CBS = U('Callback', CB)
cb_event = z3.Function('cb_event', CBS.sort, S_STR)

class Merge(Unit):
    name = 'apply_callbacks'
    functions = ('trappy.ftrace.GenericFTrace.apply_callbacks',)
    budget = 400; split = 3
    assumes = ('DataFrame.itertuples() yields the rows in order as tuples (index, cells in column order); columns lists the column names; empty is true exactly for tables without rows or columns',
               "every non-empty table has a __line column; a table's rows are in increasing line order and lines differ between tables (C01, C06)", 'column names are distinct and none is Index')
    def setup(self, ex):
        ex.specs['builtins.next'] = f_next; ex.specs['builtins.getattr'] = f_getattr
        d, d2 = z3.Consts('d d2', S_DF); i, j, c = z3.Ints('i j c'); e, e2 = z3.Consts('e e2', S_STR)
        A = ex.axioms.append
        A(z3.ForAll([d, i], z3.And(row_df(mkrow(d, i)) == d, row_i(mkrow(d, i)) == i), patterns=[mkrow(d, i)]))
        A(z3.ForAll([d], z3.And(nrows(d) >= 0, ncols(d) >= 0), patterns=[nrows(d)]))
        A(z3.ForAll([d], z3.And(nrows(d) >= 0, ncols(d) >= 0), patterns=[ncols(d)]))
        A(z3.ForAll([d, c], z3.Implies(z3.And(0 <= c, c < ncols(d)), colname(d, c) != lit('Index')), patterns=[colname(d, c)]))
        A(z3.ForAll([d, c, e], z3.Implies(z3.And(0 <= c, c < ncols(d), colname(d, c) == e), colno(d, e) == c), patterns=[z3.MultiPattern(colname(d, c), colno(d, e))]))
        A(z3.ForAll([d, e], z3.And(colno(d, e) >= -1, colno(d, e) < ncols(d), z3.Implies(colno(d, e) >= 0, colname(d, colno(d, e)) == e)), patterns=[colno(d, e)]))
        A(z3.ForAll([d], z3.Implies(z3.And(nrows(d) > 0, ncols(d) > 0), lc(d) >= 0), patterns=[nrows(d)]))
        A(z3.ForAll([d], z3.Implies(nrows(d) > 0, ncols(d) > 0), patterns=[nrows(d)]))
        A(z3.ForAll([d, i], z3.Implies(lc(d) >= 0, cell(d, i, lc(d) + 1) == S_PV.pint(line(d, i))), patterns=[line(d, i)]))
        A(z3.ForAll([d, i, c], z3.Implies(z3.And(c == lc(d) + 1, lc(d) >= 0), cell(d, i, c) == S_PV.pint(line(d, i))), patterns=[cell(d, i, c)]))
        A(z3.ForAll([d, i, j], z3.Implies(z3.And(0 <= i, i < j, j < nrows(d)), line(d, i) < line(d, j)), patterns=[z3.MultiPattern(line(d, i), line(d, j))]))
        A(z3.ForAll([e, e2, i, j], z3.Implies(z3.And(e != e2, 0 <= i, i < nrows(df_of(e)), 0 <= j, j < nrows(df_of(e2))), line(df_of(e), i) != line(df_of(e2), j)), patterns=[z3.MultiPattern(line(df_of(e), i), line(df_of(e2), j))]))
        A(z3.ForAll([e, i], z3.Implies(z3.And(0 <= i, i < nrows(df_of(e))), line(df_of(e), i) >= 0), patterns=[line(df_of(e), i)]))
        ev_of = z3.Function('ev_of', S_DF, S_STR)
        A(z3.ForAll([e], ev_of(df_of(e)) == e, patterns=[df_of(e)]))
        A(z3.ForAll([d], it_df(mkiter(d)) == d, patterns=[mkiter(d)]))
        self.at = z3.Function('at', I, B); A(z3.ForAll([i], self.at(i), patterns=[self.at(i)]))
        ex.templates.append(self.inv); self.fl = FilterLoop(ex, ListS(STR))
    def inv(self, ctx):
        ex = ctx.ex; out = []
        a, b = z3.Ints('ta tb'); e = z3.Const('te', S_STR)
        conts = [l for l in ctx.labels if l[0] == 'c']
        sh = lambda l: ctx.info.mod[l]
        fm = ex.fnmap
        P = lambda e: z3.Select(ex.ghosts['pos'].t, df_of(e))
        its = [x for x in ex.reg.values() if isinstance(x, Cell) and x.kind == 'dict' and x.items is None and x.shape == DictS(STR, ITER)]
        # fetching the first rows: one entry per element of the sequence, every iterator advanced once
        key = None
        if ctx.seq is not None and ('gh', 'pos') in ctx.labels:
            x0 = ctx.seq.get(z3.IntVal(0)); x0 = x0[0] if isinstance(x0, tuple) else x0
            if ex.shape_of(x0) == STR:
                def key(c, j):
                    v = c.seq.get(j)
                    return ex.term(v[0] if isinstance(v, tuple) else v, STR)
        if key:
            for cl in its:
                if cl.enum is None: continue
                ix = cl.enum[3]
                def adv(c, cl=cl, ix=ix):
                    return z3.ForAll([e], z3.Implies(z3.Select(cl.comps[0], e), P(e) == z3.If(ix(e) < c.k, 1, 0)), patterns=[z3.Select(cl.comps[0], e), df_of(e)])
                out.append((('must', 'adv'), adv))
                for l in conts:
                    if isinstance(sh(l), DictS) and sh(l).k == STR and sh(l).v == ROW:
                        def first(c, l=l, cl=cl, ix=ix):
                            D, V = c.cur(l).cell.comps
                            return z3.ForAll([e], z3.And(z3.Select(D, e) == z3.And(z3.Select(cl.comps[0], e), ix(e) < c.k), z3.Implies(z3.Select(D, e), z3.Select(V, e) == mkrow(df_of(e), 0))), patterns=[z3.Select(D, e), z3.Select(V, e), df_of(e)])
                        out.append((('must', 'first', l), first))
        # the merge loop
        if ('gh', 'cnt') in ctx.labels:
            N = lambda e: nrows(df_of(e))
            sel = lambda e: z3.Select(fm, e)
            def counts(c):
                C, last = ex.ghosts['cnt'].t, ex.ghosts['last'].t
                return z3.ForAll([e], z3.And(0 <= z3.Select(C, e), z3.Implies(sel(e), z3.Select(C, e) <= N(e)), z3.Implies(z3.Not(sel(e)), z3.Select(C, e) == 0),
                                 z3.Implies(z3.And(sel(e), z3.Select(C, e) < N(e)), line(df_of(e), z3.Select(C, e)) > last)), patterns=[z3.Select(C, e)])
            out.append((('must', 'delivered rows'), counts))
            lists = [l for l in conts if isinstance(sh(l), ListS) and sh(l).elem == STR]
            its = [x for x in ex.reg.values() if isinstance(x, Cell) and x.kind == 'dict' and x.items is None and x.shape == DictS(STR, ITER)]
            for l in lists:
                def live(c, l=l):
                    n, L = c.cur(l).cell.comps; C = ex.ghosts['cnt'].t
                    ev = lambda a: z3.Select(L, a)
                    return z3.And(self.at(n), z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n), z3.And(sel(ev(a)), z3.Select(C, ev(a)) < N(ev(a)))), patterns=[ev(a)]),
                                  z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), ev(a) != ev(b)), patterns=[z3.MultiPattern(ev(a), ev(b))]),
                                  z3.ForAll([e], z3.Implies(z3.And(sel(e), z3.Select(C, e) < N(e)), z3.Exists([a], z3.And(self.at(a), 0 <= a, a < n, ev(a) == e), patterns=[ev(a)])), patterns=[z3.Select(C, e)]))
                out.append((('must', 'events with rows left', l), live))
            for l in conts:
                if isinstance(sh(l), DictS) and sh(l).v == ROW:
                    def nxt(c, l=l):
                        D, V = c.cur(l).cell.comps; C = ex.ghosts['cnt'].t
                        return z3.ForAll([e], z3.Implies(z3.And(sel(e), z3.Select(C, e) < N(e)), z3.And(z3.Select(D, e), z3.Select(V, e) == mkrow(df_of(e), z3.Select(C, e)))), patterns=[z3.Select(C, e)])
                    out.append((('must', 'next row', l), nxt))
            def pos(c):
                C = ex.ghosts['cnt'].t
                return z3.ForAll([e], z3.Implies(z3.And(sel(e), z3.Select(C, e) < N(e)), P(e) == z3.Select(C, e) + 1), patterns=[z3.Select(C, e), df_of(e)])
            out.append((('must', 'iterator position'), pos))
        return out
    def script(self, ex):
        m = ex.src('trappy.ftrace', 'GenericFTrace.apply_callbacks')
        fm = ex.fresh(DictS(STR, CBS), 'fn_map'); D, V = fm.cell.comps
        ex.fnmap = D; nk, keys, _ = ex.enum(fm)
        self.fl.define(ex, nk, lambda j: z3.And(nrows(df_of(z3.Select(keys, j))) > 0, ncols(df_of(z3.Select(keys, j))) > 0), lambda j: [z3.Select(keys, j)], lambda j: [z3.Select(keys, j)])
        e = z3.Const('fe', S_STR)
        ex.assume(z3.ForAll([e], z3.Implies(z3.Select(D, e), cb_event(z3.Select(V, e)) == e), patterns=[z3.Select(V, e)]))
        ex.ghosts['cnt'] = Sym(z3.K(S_STR, z3.IntVal(0)), CNT); ex.ghosts['last'] = Sym(z3.IntVal(-1), INT)
        ex.ghosts['pos'] = Sym(z3.K(S_DF, z3.IntVal(0)), POS); ex.itersite = None
        try: ex.call(m, [Trace(), fm], {})
        except PyRaise as x:
            ex.prove('apply_callbacks does not fail (%s)' % x.exc.name, False); return
        C = ex.ghosts['cnt'].t
        x = z3.Const('fx', S_STR)
        ex.prove('every row of every selected table was delivered', z3.Implies(z3.Select(D, x), z3.Select(C, x) == nrows(df_of(x))))
        ex.prove('nothing else was called', z3.Implies(z3.Not(z3.Select(D, x)), z3.Select(C, x) == 0))

UNITS = [Merge()]
