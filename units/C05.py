"""C05: array fields are expanded into numbered columns padded with zeros.

A payload is looked at as pre ++ NAME={v0 ... vk} ++ post around its first array field. That the code's regular expressions
find exactly this field and its parts is decided for all strings (pyvc/rx.py); the functions pre, name, vals and post then
stand for the parts."""
from pyvc.unit import *
from pyvc.models import *
from pyvc import rx
from units import populate
W, ELEMS = r'[A-Za-z0-9_]+', r'[^{} \n]+(?: [^{} \n]+)*'
FIELD = r'(?P<pre>(?:[^\n]* )?)(?P<fld>(?P<name>%s)=\{(?P<vals>%s)\})(?P<post>(?: [^\n]*)?)' % (W, ELEMS)
ONE = r'(?P<fld>(?P<name>%s)=\{(?P<vals>%s)\})' % (W, ELEMS)
NONE_ = r'(?P<s>[^\n]*)'
SI = z3.ArraySort(S_STR, I)

class Field:
    """the first array field of a string"""
    def __init__(self):
        F = z3.Function
        self.has = F('has_array', S_STR, B); self.pre, self.name, self.vals, self.post = (F('arr_' + n, S_STR, S_STR) for n in ('pre', 'name', 'vals', 'post'))
        self.start, self.end = F('arr_start', S_STR, I), F('arr_end', S_STR, I)
        self.fields = {}        # term id of a field text -> string it comes from
    def text(self, s):
        t = mkcat([Sym(self.name(s), STR), '={', Sym(self.vals(s), STR), '}'])
        self.fields[t.t.get_id()] = (t.t, s); return t
    def axioms(self, ex):
        x = z3.Const('fx', S_STR)
        a, b = uf(ex, 'str_slice', [Sym(x, STR), None, Sym(self.start(x), INT)], STR).t, uf(ex, 'str_slice', [Sym(x, STR), Sym(self.end(x), INT), None], STR).t
        ex.assume(z3.ForAll([x], a == self.pre(x), patterns=[a])); ex.assume(z3.ForAll([x], b == self.post(x), patterns=[b]))
    def install(self, ex):
        install_re(ex)
        for how in ('match', 'search', 'fullmatch'):
            ex.specs['re.' + how] = lambda ex, a, k, how=how: self.match(ex, how, a[0], ex.force(a[1]))
        ex.specs['re.compile'] = lambda ex, a, k: Pat(a[0], self)
    def match(self, ex, how, pat, s):
        if isinstance(pat, Pat): pat = pat.pat
        if not isinstance(pat, str) or not isinstance(s, Sym): raise Unsupported('pattern')
        if s.t.get_id() in self.fields: return FMatch(self, self.fields[s.t.get_id()][1], how, pat, ONE, True)
        rxprove(ex, 'the first array field of a payload is found', '(' + pat + ')', how, FIELD, groups={1: 'fld'}, forbid={'pre': r'=\{'})
        rxprove(ex, 'nothing else is taken for an array field', pat, how, NONE_, want='nomatch', forbid={'s': r'=\{'})
        if not ex.decide(self.has(s.t)): return None
        return FMatch(self, s.t, how, pat, FIELD, False)
class Pat(Ext):
    def __init__(self, pat, f): self.pat, self.f = pat, f
    def py_getattr(self, ex, n):
        if n in ('match', 'search', 'fullmatch'): return Builtin(n, lambda ex, a, k: self.f.match(ex, n, self.pat, ex.force(a[0])))
        return super().py_getattr(ex, n)
class FMatch(Ext):
    """a match on the first array field of s (or on the field's text alone)"""
    def __init__(self, f, s, how, pat, spec, alone): self.f, self.s, self.how, self.pat, self.spec, self.alone = f, s, how, pat, spec, alone
    def part(self, ex, g):
        kw = {} if self.alone else dict(forbid={'pre': r'=\{'})
        pat, g_ = (self.pat, g) if g != 0 else ('(' + self.pat + ')', 1)
        for n in ('fld', 'name', 'vals'):
            if rx.decide(pat, self.how, self.spec, groups={g_: n}, **kw).ok: return n
        ex.prove('group %s of %r is a part of the array field' % (g, self.pat), False)
        raise Unsupported('group %s of %r' % (g, self.pat))
    def grp(self, ex, g):
        n = self.part(ex, g)
        return self.f.text(self.s) if n == 'fld' else Sym(getattr(self.f, n)(self.s), STR)
    def py_getattr(self, ex, n):
        if n == 'group': return Builtin(n, lambda ex, a, k: self.grp(ex, a[0] if a else 0))
        if n == 'groups': return Builtin(n, lambda ex, a, k: tuple(self.grp(ex, i + 1) for i in range(_groups(self.pat))))
        if n in ('start', 'end') and not self.alone:
            def pos(ex, a, k):
                if self.part(ex, a[0] if a else 0) != 'fld': raise Unsupported('position of a group')
                return Sym((self.f.start if n == 'start' else self.f.end)(self.s), INT)
            return Builtin(n, pos)
        return super().py_getattr(ex, n)
    def py_getitem(self, ex, k): return self.grp(ex, k)
def _groups(p):
    import re
    return re.compile(p).groups
def elems(ex, f, s): return uf(ex, 'str_split', [Sym(f.vals(s), STR), ' '], ListS(STR)).cell.comps

class Explode(Unit):
    """one array field after the other is replaced by its expansion"""
    name = 'trace_parser_explode_array'
    functions = ('trappy.base.trace_parser_explode_array',)
    budget = 200
    assumes = ("every '={' of a payload belongs to an array field NAME={v0 v1 ...} that begins the payload or follows a space; it is followed by a space or the end (other text after it is not an array field)",
               "str.split(' ') of single-space separated elements lists them; cutting a string at a match's start and end gives the text before and after the match",
               'array_lengths has an entry for every array of the payload (the length scan is below)')
    def setup(self, ex):
        self.f = Field(); self.f.install(ex); ex.templates.append(self.inv)
    def inv(self, ctx):
        ex = ctx.ex; out = []
        for l in ctx.labels:
            if l[0] != 'v' or ctx.info.mod[l] != STR: continue
            if ctx.seq is None:
                out.append((('the payload after k replacements', l), lambda c, l=l: ex.term(c.cur(l), STR) == self.S(c.k) if c.cur(l) is not UNBOUND else z3.BoolVal(True)))
            else:
                s = self.cur
                out.append((('the expansion of k elements', l), lambda c, l=l: ex.term(c.cur(l), STR) == self.E(s(ex), c.k)))
                out.append((('the expansion of all elements and k zeros', l), lambda c, l=l: ex.term(c.cur(l), STR) == self.E(s(ex), c.k + elems(ex, self.f, s(ex))[0])))
        if ctx.seq is None: out.append((('must', 'replacements so far'), lambda c: z3.And(c.k >= 0, self.all(c.k))))
        return out
    def cur(self, ex):
        """the payload at the head of the outer loop"""
        return self.S(ex.loops[0].k)
    def script(self, ex):
        f = self.f; f.axioms(ex); F = z3.Function
        self.E, self.S = F('expansion', S_STR, I, S_STR), F('payload', I, S_STR)
        fn_ = ex.src('trappy.base', 'trace_parser_explode_array')
        s0 = ex.fresh(STR, 'payload'); al = ex.fresh(DictS(STR, INT), 'array_lengths'); dom, val = al.cell.comps
        s = z3.Const('xs', S_STR); j, k = z3.Ints('xj xk')
        ex.assume(z3.ForAll([s], z3.Implies(f.has(s), z3.Select(dom, f.name(s))), patterns=[z3.Select(dom, f.name(s))]))
        n, A = elems(ex, f, s)
        ex.assume(z3.ForAll([s], n >= 1, patterns=[n]))
        sj = uf(ex, 'str_of_INT', [Sym(j, INT)], STR)
        col = Sym(f.name(s), STR)
        nth = z3.If(j < n, mkcat([Sym(self.E(s, j), STR), col, sj, '=', Sym(z3.Select(A, j), STR), ' ']).t, mkcat([Sym(self.E(s, j), STR), col, sj, '=0 ']).t)
        ex.assume(z3.ForAll([s], self.E(s, 0) == lit(''), patterns=[self.E(s, 0)]))
        ex.assume(z3.ForAll([s, j], z3.Implies(j >= 0, self.E(s, j + 1) == nth), patterns=[z3.MultiPattern(self.E(s, j), sj.t)]))
        L = z3.Select(val, f.name(s)); full = z3.If(L > n, L, n)
        cut = uf(ex, 'str_slice', [Sym(self.E(s, full), STR), None, -1], STR)
        self.step = lambda t: z3.substitute(mkcat([Sym(f.pre(s), STR), cut, Sym(f.post(s), STR)]).t, (s, t))
        ex.assume(self.S(0) == s0.t)
        self.all = F('all_replaced', I, B); self.fin = z3.Const('fully_expanded', S_STR); ex.assume(self.all(0))
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, f.has(self.S(k))), z3.And(self.S(k + 1) == self.step(self.S(k)), self.all(k + 1) == self.all(k))), patterns=[f.name(self.S(k))]))
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, self.all(k), z3.Not(f.has(self.S(k)))), self.fin == self.S(k)), patterns=[f.has(self.S(k))]))
        try: r = ex.call(fn_, [s0, al], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the result has no array field left', z3.Not(f.has(ex.term(r, STR))))
        ex.prove('it is the payload with its array fields replaced one after the other, each by its elements numbered from 0 and zeros up to the array\'s length, and nothing else touched', ex.term(r, STR) == self.fin)

class Lengths(Unit):
    """the longest occurrence of every array over all lines"""
    name = '__get_trace_array_lengths'
    functions = ('trappy.base.Base.__get_trace_array_lengths',)
    budget = 200
    def setup(self, ex):
        self.f = Field(); self.f.install(ex); ex.templates.append(self.inv)
    def is_(self, c, l, D, V):
        """the dictionary holds exactly these lengths"""
        ex = c.ex; d, v = c.cur(l).cell.comps; x = z3.Const('lx', S_STR)
        return z3.And(z3.ForAll([x], z3.Select(d, x) == (z3.Select(V, x) > 0), patterns=[z3.Select(d, x)]), z3.ForAll([x], z3.Implies(z3.Select(d, x), z3.Select(v, x) == z3.Select(V, x)), patterns=[z3.Select(v, x)]))
    def inv(self, ctx):
        ex = ctx.ex; out = []; x = z3.Const('nx', S_STR)
        for l in ctx.labels:
            sh = ctx.info.mod[l]
            if l[0] == 'c' and isinstance(sh, DictS) and sh.k == STR and sh.v == INT:
                if ctx.seq is not None: out.append((('must', 'lengths before this line', l), lambda c, l=l: z3.And(self.is_(c, l, None, self.M(c.k)), self.nonneg(self.M(c.k)))))
                else: out.append((('must', 'lengths after j arrays of this line', l), lambda c, l=l: z3.And(self.is_(c, l, None, self.m(self.i(ex), c.k)), self.nonneg(self.m(self.i(ex), c.k)))))
            if l[0] == 'v' and sh == STR and ctx.seq is None:
                out.append((('rest of the line', l), lambda c, l=l: ex.term(c.cur(l), STR) == self.rest(self.i(ex), c.k) if c.cur(l) is not UNBOUND else z3.BoolVal(True)))
        if ctx.seq is None: out.append((('must', 'arrays so far'), lambda c: z3.And(c.k >= 0, self.all(self.i(ex), c.k))))
        return out
    def i(self, ex): return ex.loops[0].k
    def nonneg(self, V):
        x = z3.Const('nx', S_STR)
        return z3.ForAll([x], z3.Select(V, x) >= 0, patterns=[z3.Select(V, x)])
    def script(self, ex):
        f = self.f; f.axioms(ex); F = z3.Function
        self.M, self.m, self.rest, self.all = F('lengths_before_line', I, SI), F('lengths_in_line', I, I, SI), F('rest', I, I, S_STR), F('all_arrays', I, I, B)
        ob = PyObj(ex, ex.src('trappy.base', 'Base'))
        l = ex.fresh(ListS(STR), 'data_array'); N, A = l.cell.comps; ob.attrs['data_array'] = l
        i, j = z3.Ints('li lj'); s = z3.Const('xs', S_STR)
        rest, m, M = self.rest, self.m, self.M
        n_ = elems(ex, f, s)[0]; ex.assume(z3.ForAll([s], n_ >= 1, patterns=[n_]))
        r = rest(i, j); n = elems(ex, f, r)[0]; nm = f.name(r)
        upd = z3.Store(m(i, j), nm, z3.If(n > z3.Select(m(i, j), nm), n, z3.Select(m(i, j), nm)))
        ex.assume(M(0) == z3.K(S_STR, z3.IntVal(0)))
        ex.assume(z3.ForAll([i], z3.And(rest(i, 0) == z3.Select(A, i), m(i, 0) == M(i), self.all(i, 0)), patterns=[z3.Select(A, i)]))
        ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(j >= 0, f.has(r)), z3.And(rest(i, j + 1) == f.post(r), m(i, j + 1) == upd, self.all(i, j + 1) == self.all(i, j))), patterns=[f.name(r)]))
        ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(j >= 0, self.all(i, j), z3.Not(f.has(r))), M(i + 1) == m(i, j)), patterns=[f.has(r)]))
        try: d = ex.call(ex.getattr(ob, '__get_trace_array_lengths'), [], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        if not isinstance(d, VDict): raise Unsupported('result')
        x = z3.Const('qx', S_STR)
        if d.cell.items is not None and not d.cell.items or isinstance(d.cell.shape.k, BotS): D, V = z3.K(S_STR, False), None
        else: D, V = d.cell.comps
        ex.prove('exactly the arrays that occur have a length', z3.Select(D, x) == (z3.Select(M(N), x) > 0))
        ex.prove("an array's length is its number of elements in its longest occurrence", z3.Implies(z3.Select(D, x), z3.Select(V, x) == z3.Select(M(N), x)) if V is not None else z3.BoolVal(True))
class Longest(Unit):
    """the running maximum over the occurrences is the longest one (induction)"""
    name = 'longest occurrence'; functions = (); budget = 60
    def script(self, ex):
        F = z3.Function; V, nm, ln = F('V', I, SI), F('occ_name', I, S_STR), F('occ_len', I, I)
        t, x = z3.Int('t'), z3.Const('x', S_STR)
        at = lambda k, x: z3.Select(V(k), x)
        ex.assume(V(0) == z3.K(S_STR, z3.IntVal(0)))
        ex.assume(z3.ForAll([t], z3.Implies(t >= 0, z3.And(ln(t) >= 1, V(t + 1) == z3.Store(V(t), nm(t), z3.If(ln(t) > at(t, nm(t)), ln(t), at(t, nm(t)))))), patterns=[nm(t)]))
        P = lambda K: z3.And(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < K), at(K, nm(t)) >= ln(t)), patterns=[ln(t)]),
                             z3.ForAll([x], z3.Or(at(K, x) == 0, z3.Exists([t], z3.And(0 <= t, t < K, nm(t) == x, ln(t) == at(K, x)), patterns=[nm(t)])), patterns=[at(K, x)]))
        K = ex.fresh(INT, 'K').t; ex.assume(K >= 0); ex.assume(nm(K) == nm(K))
        ex.prove('base', P(z3.IntVal(0)))
        y = z3.Const('y', S_STR); T = z3.Int('T'); ex.ghosts
        ex.prove('step: no occurrence is longer', z3.Implies(P(K), z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < K + 1), at(K + 1, nm(t)) >= ln(t)), patterns=[ln(t)])))
        ex.prove('step: some occurrence has that length', z3.Implies(z3.And(P(K), nm(K) == nm(K)), z3.Implies(at(K + 1, y) != 0, z3.Or(z3.And(nm(K) == y, ln(K) == at(K + 1, y)), z3.Exists([t], z3.And(0 <= t, t < K, nm(t) == y, ln(t) == at(K + 1, y)), patterns=[nm(t)])))))
from units import C06
class Driver(C06.Build):
    name = 'create_dataframe (expansion)'; expansion_only = True
UNITS = [Explode(), Lengths(), Longest(), Driver(), populate.Populate('C05')]
