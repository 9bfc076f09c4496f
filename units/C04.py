"""C04: key=value payloads are decoded to exactly the printed fields."""
from pyvc.unit import *
from pyvc.models import *
FAIL = 'FAILED TO PARSE'
SD, SV = z3.ArraySort(S_STR, B), z3.ArraySort(S_STR, S_PV)

class Cast(Unit):
    name = 'string_cast_int'
    functions = ('trappy.base.Base.string_cast_int',)
    assumes = ('int(s, base=0) accepts exactly the integer literals (0x, 0o, 0b prefixes) and raises ValueError otherwise',)
    def script(self, ex):
        cls = ex.src('trappy.base', 'Base'); s = ex.fresh(STR, 's')
        try: r = ex.call(ex.getattr(cls, 'string_cast_int'), [s], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('an integer literal becomes its value, anything else stays', pv_eq(ex.term(r, PV), cast(ex, s)))
def cast(ex, s):
    return z3.If(uf(ex, 'str_isint', [s, 0], BOOL).t, S_PV.pint(uf(ex, 'str_int', [s, 0], INT).t), S_PV.pstr(s.t))

class Decode(Unit):
    name = 'generate_data_dict'
    functions = ('trappy.base.Base.generate_data_dict', 'trappy.base.Base.string_cast_int')
    budget = 200
    assumes = ("str.split() lists the white-space separated words; word.split('=', 1) gives the parts before and after the first '='", 'int(s, base=0) accepts exactly the integer literals and raises ValueError otherwise')
    def setup(self, ex): ex.templates.append(self.inv)
    def inv(self, ctx):
        ex = ctx.ex; out = []; x = z3.Const('ix', S_STR)
        if ctx.seq is None: return []
        for l in ctx.labels:
            sh = ctx.info.mod[l]
            if l[0] == 'c' and isinstance(sh, DictS) and sh.k == STR and sh.v == PV:
                def f(c, l=l):
                    D, V = c.cur(l).cell.comps
                    return z3.And(D == self.dom(c.k), z3.ForAll([x], z3.Implies(z3.Select(D, x), z3.Select(V, x) == z3.Select(self.val(c.k), x)), patterns=[z3.Select(V, x)]))
                out.append((('must', 'the fields of the words so far', l), f))
            if l[0] == 'v' and sh in (OptS(STR), STR):
                def g(c, l=l):
                    v = c.cur(l)
                    if v is UNBOUND: return z3.BoolVal(True)
                    if v is None: return z3.Not(self.has(c.k))
                    if isinstance(v, VOpt): return z3.And(v.isnone == z3.Not(self.has(c.k)), z3.Implies(self.has(c.k), v.comps[0] == self.last(c.k)))
                    return z3.And(self.has(c.k), ex.term(v, STR) == self.last(c.k))
                out.append((('last key', l), g))
        out.append((('must', 'no leading word was accepted'), lambda c: z3.Implies(z3.And(c.k > 0, z3.Not(self.failed)), z3.And(self.has(c.k), self.e0))))
        return out
    def script(self, ex):
        cls = ex.src('trappy.base', 'Base'); ob = PyObj(ex, cls)
        ob.attrs['unique_word'] = ex.fresh(STR, 'unique_word')
        data = ex.fresh(STR, 'payload')
        self.N, A = uf(ex, 'str_split', [data], ListS(STR)).cell.comps
        w = lambda t: Sym(z3.Select(A, t), STR)
        F = z3.Function; k = z3.Int('k'); x = z3.Const('dx', S_STR)
        self.has, self.last, self.dom, self.val = F('has_key', I, B), F('last_key', I, S_STR), F('fields', I, SD), F('values', I, SV)
        has, last, dom, val = self.has, self.last, self.dom, self.val
        self.failed = tbool(ex.contains(data, FAIL))
        e = tbool(ex.contains(w(k), '='))
        key, text = uf(ex, 'str_before', [w(k), '='], STR), uf(ex, 'str_after', [w(k), '='], STR)
        old = z3.Select(val(k), last(k))
        ext = mkcat([Sym(S_PV.s(old), STR), ' ', w(k)]).t
        ex.assume(z3.And(z3.Not(has(0)), dom(0) == z3.K(S_STR, z3.BoolVal(False))))
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.N), z3.And(has(k + 1) == z3.Or(has(k), e), last(k + 1) == z3.If(e, key.t, last(k)),
            dom(k + 1) == z3.If(e, z3.Store(dom(k), key.t, z3.BoolVal(True)), dom(k)),
            z3.Implies(has(k), z3.Select(dom(k), last(k))),
            val(k + 1) == z3.If(e, z3.Store(val(k), key.t, cast(ex, text)), z3.If(z3.And(has(k), S_PV.is_pstr(old)), z3.Store(val(k), last(k), S_PV.pstr(ext)), val(k))))), patterns=[z3.Select(A, k)]))
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= self.N, has(k)), z3.Select(dom(k), last(k))), patterns=[last(k)]))
        self.e0 = tbool(ex.contains(w(z3.IntVal(0)), '='))
        bad = z3.And(self.N > 0, z3.Not(self.e0), z3.Not(self.failed))
        try: r = ex.call(ex.getattr(ob, 'generate_data_dict'), [data], {})
        except PyRaise as e:
            ex.prove('only a parse error is raised (%s)' % e.exc.name, e.exc.name == 'TrappyParseError')
            ex.prove('only payloads whose first word has no = are rejected', bad); return
        ex.prove('payloads whose first word has no = are rejected', z3.Not(bad))
        if not isinstance(r, VDict): ex.prove('a dict is returned', False); return
        if r.cell.items is not None and not r.cell.items:
            q = z3.Const('rq', S_STR); ex.prove('the fields are exactly the keys printed before the first =', z3.Not(z3.Select(dom(self.N), q))); return
        D, V = ex.dict_comps(r, DictS(STR, PV)) if r.cell.items is None else ex.pack(r, DictS(STR, PV))
        q = ex.fresh(STR, 'q').t
        ex.prove('the fields are exactly the keys printed before the first =', z3.Select(D, q) == z3.Select(dom(self.N), q))
        ex.prove('every field has the value of its last word, extended by the words that follow', z3.Implies(z3.Select(D, q), pv_eq(z3.Select(V, q), z3.Select(val(self.N), q))))

UNITS = [Cast(), Decode()]
