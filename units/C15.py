"""C15: expressions read exactly the rows selected by the window and the filters."""
from units.tables import *

class GetDataFrame(Unit):
    name = '_get_data_frame'
    functions = ('trappy.stats.grammar.Parser._get_data_frame',)
    budget = 200
    assumes = ('pandas: a label slice of a table sorted by time holds exactly the rows whose time is within both bounds; == and isin compare cells; a table indexed with a mask holds exactly the rows where it is true; these make new tables',
               'listify by its contract (below)', 'the event tables are sorted by time (C02, C07)')
    def setup(self, ex):
        install(ex); ex.specs['trappy.utils.listify'] = listify
        ex.templates.append(lambda ctx: self.F.inv(ctx))
    def script(self, ex):
        T = table(ex); self.T = T; fr = Frame(ex, T)
        self.F = Filters(ex, T.cell, T.col)
        i = z3.Int('ri')
        cls = Event(ex.fresh(STR, 'event'))
        ob = PyObj(ex, ex.src('trappy.stats.grammar', 'Parser'))
        lo = ex.fresh(REAL, 'w0'); hi = ex.fresh(OptS(REAL), 'w1')
        ob.attrs.update(_window=(lo, hi), _filters=self.F.d, data=TraceOf(cls.name, fr))
        x = z3.Const('fvx', FV.sort); ex.assume(z3.ForAll([x], z3.Not(iscall(x)), patterns=[iscall(x)]))
        try: r = ex.call(ex.getattr(ob, '_get_data_frame'), [cls], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('it is read from the event\'s table', isinstance(r, Frame) and r.table is T)
        q = ex.fresh(INT, 'q').t
        inside = z3.And(0 <= q, q < T.n, T.tm(q) >= lo.t, z3.Or(hi.isnone, T.tm(q) <= hi.comps[0]))
        ex.prove('exactly the rows inside the window that pass every filter are read', r.view.sel(q) == z3.And(inside, self.F.passes(self.F.n, q)))

class Inspect(Unit):
    """what an inspection reports is about the selected rows"""
    name = '_parse_for_info'
    functions = ('trappy.stats.grammar.Parser._parse_for_info',)
    assumes = ('_get_data_frame by its contract (above)', 'numpy.unique lists the distinct values')
    def setup(self, ex):
        install(ex); S = ex.specs
        S['trappy.stats.grammar.Parser._get_data_frame'] = self.read
        S['trappy.utils.str_to_attr'] = S['trappy.stats.grammar.str_to_attr'] = lambda ex, a, k: self.event('path', ex.term(a[0], STR))
        S['numpy.unique'] = lambda ex, a, k: Distinct(a[0])
    def event(self, how, t):
        return EvClass(how, t, self)
    def read(self, ex, a, k):
        self.got = a[1]
        return self.fr
    def script(self, ex):
        T = table(ex); self.fr = Frame(ex, T).py_getitem(ex, slice(ex.fresh(REAL, 'lo'), None))
        ob = PyObj(ex, ex.src('trappy.stats.grammar', 'Parser')); self.got = None
        pv, cd = ClassMap('pvars', self), ClassMap('definitions', self)
        ob.attrs.update(_pvars=pv, data=Defs(cd))
        ev, col = ex.fresh(STR, 'event'), ex.fresh(STR, 'column')
        try: r = ex.call(ex.getattr(ob, '_parse_for_info'), [ex.mklist([ex.mklist([ev, col])])], {})
        except PyRaise as e: ex.prove('only a missing pivot column is an error (%s)' % e.exc.name, z3.And(tbool(e.exc.name == 'KeyError'), self.haspivot, z3.Not(T.col(self.pivot)))); return
        g = lambda k: ex.dict_get(r, k)
        how = 'pvars' if ex.decide(pv.has(ev.t)) else ('definitions' if ex.decide(cd.has(ev.t)) else 'path')
        ex.prove('the inspected event is the named one', isinstance(self.got, EvClass) and self.got.how == how and z3.eq(self.got.t, ev.t))
        ex.prove('its class is reported', g('class') is self.got)
        ex.prove('the length is the number of selected rows', ex.eq(g('length'), length(ex, self.fr.view)))
        ex.prove('the column is reported present exactly if the event has it', ex.eq(g('column_present'), ex.mkbool(T.col(col.t))))
        ex.prove('the column is reported', ex.eq(g('column'), col))
        pvs = g('pivot_values')
        if g('pivot') is None: ex.prove('no pivot is reported only for events without one', z3.Not(self.haspivot)); ex.prove('no pivot, no pivot values', pvs is None)
        else:
            ex.prove('the pivot is reported', z3.And(self.haspivot, tbool(ex.eq(g('pivot'), Sym(self.pivot, STR)))))
            ex.prove('the pivot values are those of the selected rows', isinstance(pvs, Distinct) and isinstance(pvs.s, Series) and z3.eq(pvs.s.view.arr, self.fr.view.arr))
            i = ex.fresh(INT, 'i').t
            if isinstance(pvs, Distinct) and isinstance(pvs.s, Series): ex.prove('the pivot values come from the pivot column', pvs.s.at(i) == T.cell(i, self.pivot))
    pivot = z3.Const('pivot_column', S_STR); haspivot = z3.And(z3.Bool('has_pivot_attribute'), z3.Not(pivot == lit('')))
class Distinct(Ext):
    def __init__(self, s): self.s = s.s if isinstance(s, Values) else s
    def py_iter(self, ex): raise Unsupported('iteration')
    def py_list(self, ex): return self
class EvClass(Ext):
    def __init__(self, how, t, u): self.how, self.t, self.u = how, t, u
    def py_getattr(self, ex, n):
        if n == 'pivot':
            if not ex.decide(z3.Bool('has_pivot_attribute')): ex.raise_('AttributeError', n)
            return Sym(self.u.pivot, STR)
        if n == 'name': return Sym(self.t, STR)
        return super().py_getattr(ex, n)
class ClassMap(Ext):
    def __init__(self, how, u): self.how, self.u = how, u; self.has = z3.Function('in_' + how, S_STR, B)
    def py_contains(self, ex, v): return self.has(ex.term(v, STR))
    def py_getitem(self, ex, k):
        if not ex.decide(self.has(ex.term(k, STR))): ex.raise_('KeyError', k)
        return self.u.event(self.how, ex.term(k, STR))
class Defs(Ext):
    def __init__(self, cd): self.cd = cd
    def py_getattr(self, ex, n):
        if n == 'class_definitions': return self.cd
        return super().py_getattr(ex, n)
UNITS = [GetDataFrame(), Inspect(), Listify(), Conjunction()]
