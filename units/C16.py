"""C16: a trigger yields exactly the rows that match its pivot value and filters."""
from units.tables import *

class Generate(Unit):
    name = 'Trigger.generate'
    functions = ('trappy.stats.Trigger.Trigger.generate', 'trappy.stats.Trigger.apply_filter_kv')
    budget = 200
    assumes = ('pandas: == and isin compare cells, apply calls the predicate on every cell, a table indexed with a mask holds exactly the rows where it is true, in order',
               'listify by its contract (C15)', 'the pivot value is not None; a callable filter names a column of the event and returns a truth value (a KeyError otherwise)')
    def setup(self, ex):
        install(ex); ex.specs['trappy.utils.listify'] = listify
        ex.templates.append(lambda ctx: self.F.inv(ctx))
    def script(self, ex):
        T = table(ex); fr = Frame(ex, T); name, pivot = ex.fresh(STR, 'event'), ex.fresh(STR, 'pivot')
        self.F = F = Filters(ex, T.cell, T.col)
        ex.assume(T.col(pivot.t))
        # callable filters are on existing columns
        dom, val = F.d.cell.comps; x = z3.Const('cx', S_STR)
        ex.assume(z3.ForAll([x], z3.Implies(iscall(z3.Select(val, x)), T.col(x)), patterns=[z3.Select(val, x)]))
        f = z3.Const('cf', FV.sort); ex.assume(z3.ForAll([f], z3.Not(z3.And(iscall(f), islist(f))), patterns=[iscall(f)]))
        pv = ex.fresh(PV, 'pivot_value'); ex.assume(z3.Not(S_PV.is_pnone(pv.t)))
        ob = PyObj(ex, ex.src('trappy.stats.Trigger', 'Trigger'))
        v = ex.fresh(STR, 'value_column') if ex.choose('value is a column') else ex.fresh(REAL, 'value')
        ob.attrs.update(_filters=F.d, _value=v, _pivot=pivot, trace=TraceOf(name, fr), template=Event(name))
        try: r = ex.call(ex.getattr(ob, 'generate'), [pv], {})
        except PyRaise as e:
            ex.prove('only an unknown value column is an error (%s)' % e.exc.name, z3.And(tbool(e.exc.name == 'KeyError' and is_strv(v)), z3.Not(T.col(ex.term(v, STR))) if is_strv(v) else z3.BoolVal(False))); return
        if not isinstance(r, Series): raise Unsupported('result')
        q = ex.fresh(INT, 'q').t
        ex.prove("the entries are the event's rows", r.view.table is T)
        ex.prove('one entry for exactly the rows that have the pivot value and pass every filter', r.view.sel(q) == z3.And(0 <= q, q < T.n, pv_eq(T.cell(q, pivot.t), pv.t), z3.Not(S_PV.is_pnone(T.cell(q, pivot.t))), F.passes(F.n, q)))
        want = T.cell(q, v.t) if v.s == STR else None
        ex.prove("the value is the constant, or the row's value of the named column", z3.Implies(r.view.sel(q), tbool(ex.eq(r.val(q), Sym(want, PV) if want is not None else v))))
class FilterKV(Unit):
    """apply_filter_kv on its own: the mask it is given, narrowed by one filter"""
    name = 'apply_filter_kv'
    functions = ('trappy.stats.Trigger.apply_filter_kv',)
    def setup(self, ex): install(ex)
    def script(self, ex):
        T = table(ex); fr = Frame(ex, T); key = ex.fresh(STR, 'key'); q = ex.fresh(INT, 'q').t
        m0 = z3.Function('mask', I, B); mask = Series(ex, fr.view, m0, BOOL)
        ex.specs['trappy.utils.listify'] = None; del ex.specs['trappy.utils.listify']
        if ex.choose('a list of values'):
            v = ex.fresh(ListS(PV), 'values'); j = z3.Int('j')
            hit = z3.Exists([j], z3.And(0 <= j, j < v.cell.comps[0], pv_eq(T.cell(q, key.t), z3.Select(v.cell.comps[1], j))))
        else: v = ex.fresh(PV, 'value'); hit = pv_eq(T.cell(q, key.t), v.t)
        try: r = ex.call(ex.src('trappy.stats.Trigger', 'apply_filter_kv'), [key, v, fr, mask], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        if not isinstance(r, Series): raise Unsupported('result')
        ex.assume(z3.And(0 <= q, q < T.n))
        ex.prove('a missing column changes nothing', z3.Implies(z3.Not(T.col(key.t)), r.at(q) == m0(q)))
        ex.prove('otherwise the row must hold the value or one of the values', z3.Implies(T.col(key.t), r.at(q) == z3.And(m0(q), hit, z3.Not(S_PV.is_pnone(T.cell(q, key.t))))))
UNITS = [Generate(), FilterKV(), Listify(), Conjunction()]
