"""C24: system call events decode to the printed number, arguments and result."""
from pyvc.unit import *
from pyvc.models import *
H = r'[-+]?[0-9a-fA-F]+'
ENTER = r'NR (?P<n>[0-9]+) \(' + ', '.join('(?P<a%d>%s)' % (i, H) for i in range(6)) + r'\)'
EXIT = r'NR (?P<n>[-+]?[0-9]+) = (?P<r>[-+]?[0-9]+)'
def re_unnamed(p):
    import re
    return re.sub(r'\?P<\w+>', '?:', p).replace('[0-9', r'[\d')
class Explode(Unit):
    budget = 120
    assumes = ('the regular expression matcher has the documented semantics; \\d+ groups are decimal literals and [\\da-fA-F]+ groups hexadecimal literals',
               'printing an integer and reading it back gives the same integer')
    def __init__(self, cls, spec, names, fields):
        self.cls, self.spec, self.names, self.fields = cls, spec, names, fields
        self.name = cls + '.explode'; self.functions = ('trappy.raw_syscalls.%s.explode' % cls, 'trappy.base.Base.generate_data_dict')
    def setup(self, ex): install_re(ex)
    def script(self, ex):
        cls = ex.src('trappy.raw_syscalls', self.cls); pat = ex.getattr(cls, 'pat')
        if not isinstance(pat, Pattern): raise Unsupported('pattern')
        rxprove(ex, 'a line of the stated form is decoded into its numbers', pat, 'search', self.spec, groups={i + 1: n for i, n in enumerate(self.names)})
        rxprove(ex, 'no line without that form is accepted', pat, 'search', r'(?P<s>[^\n]*)', want='nomatch', forbid={'s': re_unnamed(self.spec)})
        ob = PyObj(ex, cls); ob.attrs['unique_word'] = ex.getattr(cls, 'unique_word')
        line = ex.fresh(STR, 'line'); x = Sym(z3.Const('cx', S_STR), STR)
        M = Match('search', pat.pat, line)
        base = [None if n in ('n', 'r') else 16 for n in self.names]
        ok = has(ex, 'search', pat.pat, line)
        for i, n in enumerate(self.names):
            for b_ in {base[i], 10 if base[i] is None else 16}: ex.assume(z3.Implies(ok, uf(ex, 'str_isint', [M.grp(ex, i + 1), b_], BOOL).t))
        try: s = ex.call(ex.getattr(ob, 'explode'), [line], {})
        except PyRaise as e:
            ex.prove('only lines without the stated form are rejected', z3.Not(ok))
            ex.prove('the error is a parse error (%s)' % e.exc.name, e.exc.name in ('ValueError', 'TrappyParseError'))
            ps = parts_of(e.exc.args[0]) if e.exc.args and is_strv(e.exc.args[0]) else []
            ex.prove('the error quotes the line', any(z3.is_expr(p) and z3.eq(p, line.t) for p in ps)); return
        ex.prove('lines without the stated form are rejected', ok)
        try: d = ex.call(ex.getattr(ob, 'generate_data_dict'), [s], {})
        except PyRaise as e: ex.prove('the result can be decoded (%s)' % e.exc.name, False); return
        if not isinstance(d, VDict) or d.cell.items is None: raise Unsupported('decoded fields')
        it = {k: v for k, v in d.cell.items}
        ex.prove('exactly the stated fields', set(it) == set(self.fields))
        for f, i in self.fields.items():
            ex.prove('%s is the printed value' % f, f in it and pv_eq(ex.term(it[f], PV), S_PV.pint(uf(ex, 'str_int', [M.grp(ex, i + 1), base[i]], INT).t)))
class Create(Unit):
    assumes = ('Base.create_dataframe by its contract (C05, C06)',)
    def __init__(self, cls): self.cls = cls; self.name = cls + '.create_dataframe'; self.functions = ('trappy.raw_syscalls.%s.create_dataframe' % cls,)
    def setup(self, ex):
        install_re(ex)
        ex.specs['trappy.raw_syscalls.%s.explode' % self.cls] = self.explode
        ex.specs['trappy.base.Base.create_dataframe'] = self.create
        ex.templates.append(map_loop(ListS(STR), lambda j: [uf(ex, 'exploded', [Sym(z3.Select(self.A, j), STR)], STR).t]))
    def explode(self, ex, a, k):
        return uf(ex, 'exploded', [ex.force(a[1])], STR)
    def create(self, ex, a, k):
        self.called += 1; d = self.ob.attrs['data_array']
        if not isinstance(d, VList): raise Unsupported('data_array')
        n, A = d.cell.comps if d.cell.items is None else ex.pack(d, ListS(STR))
        q = ex.fresh(INT, 'q').t; ex.assume(z3.And(0 <= q, q < n))
        ex.prove('one decoded payload per line', n == self.n)
        ex.prove('the i-th payload is the decoding of the i-th line', z3.Select(A, q) == uf(ex, 'exploded', [Sym(z3.Select(self.A, q), STR)], STR).t)
    def script(self, ex):
        cls = ex.src('trappy.raw_syscalls', self.cls); self.ob = ob = PyObj(ex, cls); self.called = 0
        l = ex.fresh(ListS(STR), 'data_array'); self.n, self.A = l.cell.comps; ob.attrs['data_array'] = l
        try: ex.call(ex.getattr(ob, 'create_dataframe'), [], {})
        except PyRaise as e: ex.prove('does not fail on its own (%s)' % e.exc.name, False); return
        ex.prove('the table is built once', self.called == 1)
UNITS = [Explode('SysEnter', ENTER, ['n', 'a0', 'a1', 'a2', 'a3', 'a4', 'a5'], dict([('nr', 0)] + [('arg%d' % i, i + 1) for i in range(6)])),
         Explode('SysExit', EXIT, ['n', 'r'], dict(nr=0, ret=1)), Create('SysEnter'), Create('SysExit')]
