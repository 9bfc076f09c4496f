"""C20: residency intervals (get_trace_event_data) against the first later switch away."""
from pyvc.unit import *
from pyvc.lib import tostr

class Row(Ext):
    def __init__(self, u, i): self.u, self.i = u, i
    def py_getitem(self, ex, k):
        u = self.u
        if k == 'prev_pid': return Sym(u.prev(self.i), INT)
        if k == 'next_pid': return Sym(u.next(self.i), INT)
        if k == 'next_comm': return Sym(u.comm(self.i), STR)
        if k == '__cpu': return Sym(u.cpu(self.i), INT)
        raise Unsupported('column %r' % (k,))
    def py_getattr(self, ex, n):
        if n in ('prev_pid', 'next_pid', 'next_comm'): return self.py_getitem(ex, n)
        return super().py_getattr(ex, n)
class Vals(Ext):
    def __init__(self, u): self.u = u
    def py_getitem(self, ex, k):
        if k == 0: return Sym(self.u.time(z3.IntVal(0)), REAL)
        if k == -1: return Sym(self.u.time(self.u.n - 1), REAL)
        raise Unsupported('index position')
    def py_getattr(self, ex, n):
        if n == 'values': return self
        return super().py_getattr(ex, n)
class Frame_(Ext):
    def __init__(self, u): self.u = u
    def py_getattr(self, ex, n):
        if n == 'index': return Vals(self.u)
        if n == 'iterrows': return Builtin(n, lambda ex, a, k: SeqExt(Seq(n=Sym(self.u.n, INT), get=lambda j: (Sym(self.u.time(j), REAL), Row(self.u, j)))))
        return super().py_getattr(ex, n)
class SeqExt(Ext):
    def __init__(self, s): self.s = s
    def py_iter(self, ex): return self.s
class Trace(Ext):
    def __init__(self, u): self.u = u
    def py_getattr(self, ex, n):
        if n == 'sched_switch': return self
        if n == 'data_frame': return Frame_(self.u)
        return super().py_getattr(ex, n)

class Residency(Unit):
    name = 'get_trace_event_data'
    functions = ('trappy.plotter.Utils.get_trace_event_data', 'trappy.utils.listify')
    assumes = ('DataFrame.iterrows() yields (index, row) in order; row[c] is the cell of column c', 'switch times are strictly increasing (C02)', 'pids are not negative; the text "<comm>-<pid>" determines comm and pid')
    budget = 400; split = 3
    def setup(self, ex):
        ex.templates.append(self.inv)
        self.at = z3.Function('at', I, B); a = z3.Int('aa')
        ex.axioms.append(z3.ForAll([a], self.at(a), patterns=[self.at(a)]))
        c = z3.Const('ac', S_STR); p = z3.Int('ap')
        self.pid_of = z3.Function('pid_of', S_STR, I); self.comm_of = z3.Function('comm_of', S_STR, S_STR)
        self.strint = lambda t: ex.term(tostr(ex, Sym(t, INT)), STR)
        nm = ex_name(self, c, p)
        ex.axioms.append(z3.ForAll([c, p], z3.Implies(p >= 0, z3.And(self.pid_of(nm) == p, self.comm_of(nm) == c)), patterns=[nm]))
    def name_(self, i): return ex_name(self, self.comm(i), self.next(i))
    def inv(self, ctx):
        ex = ctx.ex; out = []
        if ctx.seq is None: return []
        x = z3.Const('nx', S_STR); p, q, r, d = z3.Ints('np nq nr nd')
        sel, nm, o, ag, time, n = self.sel, self.name_, self.out, self.again, self.time, self.n
        lists = [l for l in ctx.labels if l[0] == 'c' and isinstance(ctx.info.mod[l], DictS) and isinstance(ctx.info.mod[l].v, ListS) and isinstance(ctx.info.mod[l].v.elem, ListS)]
        maps = [l for l in ctx.labels if l[0] == 'c' and ctx.info.mod[l] == DictS(INT, STR)]
        sets = [l for l in ctx.labels if l[0] == 'c' and ctx.info.mod[l] == SetS(STR)]
        opened = lambda c, r: z3.And(0 <= r, r < c.k, sel(r), o(r) >= c.k, ag(r) >= c.k)
        for l in sets:
            def ps(c, l=l):
                D = c.cur(l).cell.comps[0]
                return z3.And(z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < c.k, sel(r)), z3.Select(D, nm(r))), patterns=[sel(r)]),
                              z3.ForAll([x], z3.Implies(z3.Select(D, x), z3.Exists([r], z3.And(0 <= r, r < c.k, sel(r), nm(r) == x), patterns=[sel(r)])), patterns=[z3.Select(D, x)]))
            out.append((('must', 'task names', l), ps))
        for l in lists:
            def parts(c, l=l):
                D, N, LN, A = c.cur(l).cell.comps
                ln = lambda x: z3.If(z3.Select(D, x), z3.Select(N, x), z3.IntVal(0))
                st = lambda x, p: z3.Select(z3.Select(z3.Select(A, x), p), 0)
                return D, N, LN, A, ln, st
            def entries(c, parts=parts):
                D, N, LN, A, ln, st = parts(c)
                rr = self.rowof(st(x, p)); ent = z3.Select(z3.Select(A, x), p)
                return z3.ForAll([x, p], z3.Implies(z3.And(0 <= p, p < ln(x)), z3.And(z3.Select(z3.Select(LN, x), p) == 3, 0 <= rr, rr < c.k, st(x, p) == time(rr), sel(rr), nm(rr) == x, z3.Select(ent, 2) == z3.ToReal(self.cpu(rr)),
                    z3.Select(ent, 1) == z3.If(o(rr) < c.k, time(o(rr)), time(n - 1)), z3.Not(z3.And(ag(rr) < c.k, ag(rr) < o(rr))))), patterns=[z3.Select(z3.Select(A, x), p), z3.Select(z3.Select(LN, x), p)])
            def order(c, parts=parts):
                D, N, LN, A, ln, st = parts(c)
                return z3.ForAll([x, p, q], z3.Implies(z3.And(0 <= p, p < q, q < ln(x)), st(x, p) < st(x, q)), patterns=[z3.MultiPattern(z3.Select(z3.Select(A, x), p), z3.Select(z3.Select(A, x), q))])
            def complete(c, parts=parts):
                D, N, LN, A, ln, st = parts(c)
                L = ln(nm(r)) - 1       # at() is true everywhere: it names the positions to look at
                return z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < c.k, sel(r), z3.Or(ag(r) >= c.k, o(r) <= ag(r))), z3.And(z3.Select(D, nm(r)), L >= 0, self.at(L),
                    z3.Or(st(nm(r), L) == time(r), z3.Exists([p], z3.And(self.at(p), 0 <= p, p < L, st(nm(r), p) == time(r)), patterns=[self.at(p)])))), patterns=[sel(r)])
            out += [(('must', 'entries are right', l), entries), (('must', 'entries in order', l), order), (('must', 'no interval is lost', l), complete)]
            for ml in maps:
                def opn(c, parts=parts, ml=ml):
                    D, N, LN, A, ln, st = parts(c); P, V = c.cur(ml).cell.comps
                    y = z3.Select(V, d); rr = self.rowof(st(y, ln(y) - 1))
                    return z3.And(z3.ForAll([d], z3.Implies(z3.Select(P, d), z3.And(z3.Select(D, y), ln(y) > 0, self.next(rr) == d, opened(c, rr))), patterns=[z3.Select(P, d)]),
                                  z3.ForAll([r], z3.Implies(opened(c, r), z3.And(z3.Select(P, self.next(r)), z3.Select(V, self.next(r)) == nm(r), st(nm(r), ln(nm(r)) - 1) == time(r))), patterns=[sel(r)]))
                out.append((('must', 'open intervals', l, ml), opn))
        return out
    def script(self, ex):
        f = ex.src('trappy.plotter.Utils', 'get_trace_event_data')
        F = lambda nm_, *s: z3.Function(nm_, *s)
        self.prev, self.next, self.cpu, self.comm, self.time = F('prev_pid', I, I), F('next_pid', I, I), F('cpu', I, I), F('next_comm', I, S_STR), F('time', I, R)
        self.rowof = F('rowof', R, I); self.out, self.again = F('out', I, I), F('again', I, I); self.sel = F('selected', I, B)
        self.n = n = ex.fresh(INT, 'rows').t; ex.assume(n >= 1)
        i, j = z3.Ints('xi xj'); rng = lambda t: z3.And(0 <= t, t < n)
        ex.assume(z3.ForAll([i], z3.And(self.next(i) >= 0, self.prev(i) >= 0), patterns=[self.next(i)]))
        ex.assume(z3.ForAll([i], z3.Implies(rng(i), self.rowof(self.time(i)) == i), patterns=[self.time(i)]))
        ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), self.time(i) < self.time(j)), patterns=[z3.MultiPattern(self.time(i), self.time(j))]))
        # out(r): the first later switch away from the pid switched to at r; again(r): the first later switch to it
        for g, h in ((self.out, self.prev), (self.again, self.next)):
            ex.assume(z3.ForAll([i], z3.And(i < g(i), z3.Implies(i < n, g(i) <= n), z3.Implies(g(i) < n, h(g(i)) == self.next(i))), patterns=[g(i)]))
            ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < g(i)), h(j) != self.next(i)), patterns=[z3.MultiPattern(g(i), h(j))]))
        kw = {}; cond = []
        kind = 0
        if ex.choose('names given'):
            if ex.choose('one name'):
                e = ex.fresh(STR, 'name'); kw['execnames'] = e
                cond.append(lambda i: z3.Implies(ex.truth(e), self.comm(i) == e.t))
            else:
                L = ex.fresh(ListS(STR), 'names'); ln, la = L.cell.comps; kw['execnames'] = L; w = z3.Int('wn')
                cond.append(lambda i: z3.Or(ln == 0, z3.Exists([w], z3.And(0 <= w, w < ln, z3.Select(la, w) == self.comm(i)))))
        if ex.choose('pids given'):
            L2 = ex.fresh(ListS(INT), 'pids'); ln2, la2 = L2.cell.comps; kw['pids'] = L2; w = z3.Int('wn')
            cond.append(lambda i: z3.Or(ln2 == 0, z3.Exists([w], z3.And(0 <= w, w < ln2, z3.Select(la2, w) == self.next(i)))))
        mig = lambda i: uf(ex, 'str_startswith', [Sym(self.comm(i), STR), 'migration'], BOOL).t
        ex.assume(z3.ForAll([i], self.sel(i) == z3.And(self.next(i) != 0, z3.Not(mig(i)), *[c(i) for c in cond]), patterns=[self.sel(i), self.next(i)]))
        try: res = ex.call(f, [Trace(self)], kw)
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        data, procs, span = res
        lo, hi = ex.need_items(span)
        ex.prove('the range is the first and last switch', z3.And(ex.term(lo, REAL) == self.time(z3.IntVal(0)), ex.term(hi, REAL) == self.time(n - 1)))
        if not (isinstance(data, VDict) and data.cell.items is None):
            ex.prove('the result lists intervals', False); return
        D, N, LN, A = data.cell.comps
        x = ex.fresh(STR, 'task').t; p = ex.fresh(INT, 'p').t
        ex.assume(z3.And(z3.Select(D, x), 0 <= p, p < z3.Select(N, x)))
        ent = z3.Select(z3.Select(A, x), p); r = self.rowof(z3.Select(ent, 0))
        o, ag = self.out(r), self.again(r)
        ex.prove('every interval is a switch to a selected task, on its CPU, under its name', z3.And(rng(r), z3.Select(ent, 0) == self.time(r), self.sel(r), self.name_(r) == x, z3.Select(ent, 2) == z3.ToReal(self.cpu(r))))
        ex.prove('it ends at the first later switch away, or at the end of the trace', z3.Select(ent, 1) == z3.If(o < n, self.time(o), self.time(n - 1)))
        ex.prove('an interval re-entered before it ended is dropped', z3.Not(z3.And(ag < n, ag < o)))
        q = ex.fresh(INT, 'q').t; ex.assume(rng(q)); ex.assume(z3.And(self.sel(q), z3.Or(self.again(q) >= n, self.out(q) <= self.again(q))))
        w = z3.Int('w'); nq = self.name_(q)
        ex.prove('every other interval is there, once', z3.And(z3.Select(D, nq), z3.Exists([w], z3.And(0 <= w, w < z3.Select(N, nq), z3.Select(z3.Select(z3.Select(A, nq), w), 0) == self.time(q)))))
        S = ex.pack(procs, SetS(STR))[0]
        y = z3.Const('y', S_STR)
        ex.prove('the task set names the selected tasks', z3.And(z3.Select(S, nq), z3.Implies(z3.Select(S, y), z3.Exists([w], z3.And(rng(w), self.sel(w), self.name_(w) == y)))))
def ex_name(u, c, p): return cat2(c, cat2(lit('-'), u.strint(p)))

UNITS = [Residency()]
