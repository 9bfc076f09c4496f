"""shared by the properties about row selection: event tables, filter dictionaries and what it means to pass them"""
from pyvc.unit import *
from pyvc.models import *
from pyvc.frames import *

wanted = z3.Function('wanted', sort('FilterValue'), S_PV, B)
class FilterValue(ExtU):
    """the value given for one filter: a single value, a list of values or a predicate; wanted(f, x): it lets x pass"""
    def py_getattr(self, ex, n):
        if n == '__call__':
            if not ex.decide(iscall(self.t)): ex.raise_('AttributeError', n)
            return Builtin(n, lambda ex, a, k: self.py_call(ex, a, k))
        return super().py_getattr(ex, n)
    def py_call(self, ex, a, k):
        if len(a) != 1 or k: raise Unsupported('predicate call')
        return Sym(wanted(self.t, ex.term(a[0], PV)), BOOL)
    def py_truth(self, ex): raise Unsupported('truth of a filter value')
    def py_isin(self, ex, x):
        """pandas isin with a filter value that may be a single value"""
        if not ex.decide(islist(self.t)): ex.raise_('TypeError', 'only list-like objects are allowed to be passed to isin()')
        return present(ex, x, self.t)
    def py_contains(self, ex, x):
        if not ex.decide(islist(self.t)): ex.raise_('TypeError', 'argument is not iterable')
        return wanted(self.t, ex.term(x, PV))
    def py_eq(self, ex, o):
        if not ex.decide(z3.Not(z3.Or(islist(self.t), iscall(self.t)))): raise Unsupported('comparison with a list or predicate')
        return wanted(self.t, ex.term(o, PV))
    def py_eqop(self, ex, op, o):
        if isinstance(o, Series): return o.py_eqop(ex, op, self)
        c = self.py_eq(ex, o); return ex.mkbool(c if op == '==' else z3.Not(tbool(c)))
FV = U('FilterValue', FilterValue)
iscall, islist = z3.Function('is_callable', FV.sort, B), z3.Function('is_list', FV.sort, B)
def present(ex, x, f):
    t = ex.term(x, PV); return z3.And(z3.Not(S_PV.is_pnone(t)), wanted(f, t))
class Listed(Ext):
    """listify(f): a list that holds exactly the wanted values"""
    def __init__(self, f): self.f = f
    def py_isin(self, ex, x): return present(ex, x, self.f.t)
    def py_contains(self, ex, x): return wanted(self.f.t, ex.term(x, PV))
def listify(ex, a, k):
    v = a[0]
    if isinstance(v, FilterValue): return Listed(v)
    if isinstance(v, VList): return v
    return ex.mklist([v])
class Filters:
    """a dictionary of filters and the fold: passes(k, i) = row i passes the first k filters"""
    def __init__(self, ex, cell, col, skip=None, name='filters', shape=None):
        self.d = ex.fresh(DictS(STR, shape or FV), name); dom, val = self.d.cell.comps
        self.n, self.keys, _ = ex.enum(self.d)
        self.passes = z3.Function('passes', I, I, B); k, i = z3.Ints('fk fi')
        key = z3.Select(self.keys, k); f = z3.Select(val, key)
        x = cell(i, key)
        ok = z3.Implies(z3.And(col(key), z3.Not(skip(key)) if skip else z3.BoolVal(True)), z3.And(wanted(f, x), z3.Or(iscall(f), z3.Not(S_PV.is_pnone(x)))))
        ex.assume(z3.ForAll([i], self.passes(0, i), patterns=[self.passes(0, i)]))
        ex.assume(z3.ForAll([k, i], z3.Implies(z3.And(0 <= k, k < self.n), self.passes(k + 1, i) == z3.And(self.passes(k, i), ok)), patterns=[z3.MultiPattern(self.passes(k, i), key)]))
    def inv(self, ctx, base=None):
        """loop invariants: a mask passes what the filters so far let pass; a filtered frame holds what passed"""
        out = []; i = z3.Int('ri'); ex = ctx.ex
        if ctx.seq is None: return out
        for l in ctx.labels:
            sh = ctx.info.mod[l]
            if isinstance(sh, SeriesS) and sh.elem == BOOL:
                out.append((('must', 'the mask passes exactly what the filters so far pass', l), lambda c, l=l: z3.ForAll([i], z3.Implies(c.cur(l).view.sel(i), c.cur(l).at(i) == self.passes(c.k, i)), patterns=[c.cur(l).at(i)])))
                out.append((('the mask passes what the filters so far pass on top of the start', l), lambda c, l=l: z3.ForAll([i], z3.Implies(c.cur(l).view.sel(i), c.cur(l).at(i) == z3.And(c.entry[l].at(i), self.passes(c.k, i))), patterns=[c.cur(l).at(i)])))
            if isinstance(sh, FrameS):
                out.append((('must', 'the table holds exactly what passed so far', l), lambda c, l=l: z3.ForAll([i], c.cur(l).view.sel(i) == z3.And(c.entry[l].view.sel(i), self.passes(c.k, i)), patterns=[c.cur(l).view.sel(i)])))
        return out
class Conjunction(Unit):
    """passing all filters one after the other is passing every filter (induction)"""
    name = 'passing all filters'; functions = (); budget = 30
    def script(self, ex):
        P, ok = z3.Function('P', I, B), z3.Function('ok', I, B); j = z3.Int('j'); K = ex.fresh(INT, 'K').t
        ex.assume(z3.And(P(0), K >= 0, P(K + 1) == z3.And(P(K), ok(K))))
        all_ = lambda k: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), ok(j)), patterns=[ok(j)])
        ex.prove('base', P(0) == all_(z3.IntVal(0)))
        ex.prove('step', z3.Implies(P(K) == all_(K), P(K + 1) == all_(K + 1)))
class Listify(Unit):
    """listify leaves lists alone and wraps anything else"""
    name = 'listify'; functions = ('trappy.utils.listify',); budget = 30
    def script(self, ex):
        f = ex.src('trappy.utils', 'listify')
        for v in (ex.fresh(PV, 'value'), ex.fresh(STR, 'text'), ex.fresh(ListS(PV), 'list'), (ex.fresh(INT, 'a'),)):
            try: r = ex.call(f, [v], {})
            except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
            if isinstance(v, VList): ex.prove('a list is returned as it is', r is v)
            else: ex.prove('anything else becomes a list of one', isinstance(r, VList) and r.cell.items is not None and len(r.cell.items) == 1 and r.cell.items[0] is v)
def table(ex, name='event', sorted_=True):
    """an arbitrary event table"""
    n = ex.fresh(INT, name + '_rows').t; ex.assume(n >= 0)
    tm = z3.Function(name + '_time', I, R); cell = z3.Function(name + '_cell', I, S_STR, S_PV); col = z3.Function(name + '_has_column', S_STR, B)
    t = Table(n, tm, cell, col, name); t.sorted = sorted_
    i, j = z3.Ints('ti tj')
    if sorted_: ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), tm(i) <= tm(j)), patterns=[z3.MultiPattern(tm(i), tm(j))]))
    return t

class TraceOf(Ext):
    """a trace object whose event `name` has the table fr"""
    def __init__(self, name, fr): self.name, self.fr = name, fr
    def py_getattr_sym(self, ex, n, *default):
        ex.prove("the event's own table is read", ex.eq(n, self.name)); return Parsed(self.fr)
class Parsed(Ext):
    def __init__(self, fr): self.fr = fr
    def py_getattr(self, ex, n):
        if n == 'data_frame': return self.fr
        return super().py_getattr(ex, n)
    def py_setattr(self, ex, n, v):
        ex.prove("the trace's own tables are not modified", False); raise Unsupported('table replaced')
class Event(Ext):
    """an event's class or template"""
    def __init__(self, name): self.name = name
    def py_getattr(self, ex, n):
        if n == 'name': return self.name
        return super().py_getattr(ex, n)
