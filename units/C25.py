"""C25: workload results (first listed value per combination) and thermal parameter dumps."""
from pyvc.unit import *
from pyvc.models import *

SCORE, NUM = "Overall_Score|score|FPS", r"(.+)[ _](\d+)"
def spec_is(ex, m): return has(ex, 'match', SCORE, m)
def mno(ex, m):
    """the run number of a score metric: 0 without a number; Overall_Score counts from 1"""
    M = Match('search', NUM, m)
    n = uf(ex, 'str_int', [M.grp(ex, 2), None], INT).t
    return z3.If(has(ex, 'search', NUM, m), z3.If(M.grp(ex, 1).t == lit('Overall_Score'), n - 1, n), z3.IntVal(0))

class RunNumber(Unit):
    name = 'get_run_number'
    functions = ('trappy.wa.results.get_run_number',)
    assumes = ('re.match/re.search as functions of pattern and subject; a \\d+ group is an integer literal',)
    def setup(self, ex): install_re(ex)
    def script(self, ex):
        f = ex.src('trappy.wa.results', 'get_run_number'); m = ex.fresh(STR, 'metric')
        g2 = Match('search', NUM, m).grp(ex, 2)
        ex.assume(z3.Implies(has(ex, 'search', NUM, m), uf(ex, 'str_isint', [g2, None], BOOL).t))
        try: ok, n = ex.call(f, [m], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('scores are exactly the metrics that start like one', tbool(ok) == spec_is(ex, m))
        if n is None: ex.prove('every score has a run number', z3.Not(spec_is(ex, m)))
        else: ex.prove('the run number is the printed one, counted from 0', z3.Implies(spec_is(ex, m), ex.term(n, INT) == mno(ex, m)))

FR = U('Frame')
class Results(Unit):
    name = 'get_results'
    functions = ('trappy.wa.results.get_results',)
    assumes = ('csv.reader yields the rows of the file in order, each with at least five fields', 'pd.DataFrame(dict of dicts) holds exactly the entries of the dict; pd.concat(frames, axis=1, keys) puts frame i under key i',
               'score values are numbers; a benchmark name groups rows, names are compared as strings')
    def setup(self, ex):
        install_re(ex); install_files(ex)
        ex.specs['trappy.wa.results.get_run_number'] = self.grn
        ex.specs['csv.reader'] = lambda ex, a, k: self.rows if isinstance(a[0], File) else ex.raise_('TypeError')
        ex.specs['pandas.DataFrame'] = self.frame
        ex.specs['pandas.concat'] = self.concat
        ex.specs['trappy.wa.results.Result'] = lambda ex, a, k: a[0]
        ex.templates.append(self.inv); ex.templates.append(self.inv2)
    def grn(self, ex, a, k):
        m = ex.force(a[0])
        if not ex.decide(spec_is(ex, m)): return (False, None)
        return (True, Sym(mno(ex, m), INT))
    def frame(self, ex, a, k):
        if len(a) != 1 or k: raise Unsupported('DataFrame arguments')
        t = self.DF(*ex.pack(a[0], self.shape.v))
        return Sym(t, FR)
    def concat(self, ex, a, k):
        if k.get('axis') != 1: ex.prove('the tables of the benchmarks are put side by side', False); raise PathEnd('')
        vs, ks = ex.seqof(a[0]), ex.seqof(k['keys'])
        n, n2 = ex.term(ex.length(vs), INT), ex.term(ex.length(ks), INT)
        ex.prove('one key per table', n == n2)
        j = ex.fresh(INT, 'cj'); ex.assume(z3.And(0 <= j.t, j.t < n))
        self.parts = (n, vs, ks, j)
        key = ex.term(ks.get(j.t), STR); fr = ex.term(vs.get(j.t), FR)
        b = z3.Const('cb', S_STR)
        # the table under key `key` was made from a dict of dicts that has exactly the first values
        r, i = z3.Const('cr', S_STR), z3.Int('ci')
        D2, D3, V = self.undf(fr)
        pres = z3.And(z3.Select(D2, r), z3.Select(z3.Select(D3, r), i))
        ex.prove('a cell exists exactly for the combinations in the file', pres == (self.first(key, r, i) < self.N))
        ex.prove('the value is the first one listed', z3.Implies(pres, pv_eq(self.asPV(z3.Select(z3.Select(V, r), i)), self.val(self.first(key, r, i)))))
        b = ex.fresh(STR, 'lb').t; q = z3.Int('cq')
        ex.assume(self.first(b, r, i) < self.N)
        ex.prove('no benchmark is left out', z3.Exists([q], z3.And(0 <= q, q < n, ex.term(ks.get(q), STR) == b)))
        return Sym(z3.Const('result', FR.sort), FR)
    def asPV(self, t): return t if t.sort() == S_PV else S_PV.preal(t if t.sort() == R else z3.ToReal(t))
    def undf(self, t): return [f(t) for f in self.UN]
    def inv(self, ctx):
        ex = ctx.ex
        b, r = z3.Consts('ib ir', S_STR); i = z3.Int('ii')
        out = []
        for l in ctx.labels:
            sh = ctx.info.mod[l]
            if l[0] != 'c' or not (isinstance(sh, DictS) and isinstance(sh.v, DictS) and isinstance(sh.v.v, DictS)): continue
            self.shape = sh
            def f(c, l=l):
                D1, D2, D3, V = c.cur(l).cell.comps
                v3 = z3.Select(z3.Select(z3.Select(D3, b), r), i); vv = z3.Select(z3.Select(z3.Select(V, b), r), i)
                pres = z3.And(z3.Select(D1, b), z3.Select(z3.Select(D2, b), r), v3)
                fi = self.first(b, r, i)
                return z3.ForAll([b, r, i], z3.And(pres == (fi < c.k), z3.Implies(pres, pv_eq(self.asPV(vv), self.val(fi)))), patterns=[fi])
            out.append((('must', 'first values of the rows so far', l), f))
        return out
    def inv2(self, ctx):
        """the loop that makes the tables"""
        ex = ctx.ex; out = []
        d = getattr(ctx.seq, 'dict', None) or getattr(ctx.seq, 'src', None)
        for l in ctx.labels:
            sh = ctx.info.mod[l]
            if l[0] != 'c' or not (isinstance(sh, DictS) and sh.v == FR): continue
            j = z3.Int('jj'); x = z3.Const('jx', S_STR)
            def g(c, l=l):
                D, V = c.cur(l).cell.comps
                key = lambda t: ex.term(c.seq.get(t)[0] if isinstance(c.seq.get(t), tuple) else c.seq.get(t), STR)
                def val(t):
                    y = c.seq.get(t)
                    if not isinstance(y, tuple): raise Unsupported('items expected')
                    return self.DF(*ex.pack(y[1], self.shape.v))
                return z3.And(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c.k), z3.And(z3.Select(D, key(j)), z3.Select(V, key(j)) == val(j))), patterns=[key(j)]),
                              z3.ForAll([x], z3.Implies(z3.Select(D, x), z3.Exists([j], z3.And(0 <= j, j < c.k, key(j) == x))), patterns=[z3.Select(D, x)]))
            out.append((('must', 'tables so far', l), g))
        return out
    def script(self, ex):
        f = ex.src('trappy.wa.results', 'get_results')
        self.rows = ex.fresh(ListS(ListS(STR)), 'rows')
        path = ex.fresh(STR, 'path'); name = ex.fresh(OptS(STR), 'name')
        n, lens, arrs = self.rows.cell.comps; self.N = n
        j = z3.Int('rj')
        ex.assume(z3.ForAll([j], z3.Select(lens, j) >= 5, patterns=[z3.Select(lens, j)]))
        fld = lambda t, i: z3.Select(z3.Select(arrs, t), i)
        self.first = z3.Function('first', S_STR, S_STR, I, I); self.val = z3.Function('val', I, S_PV)
        self.hit = hit = lambda t: spec_is(ex, Sym(fld(t, 3), STR))
        nm = z3.And(z3.Not(name.isnone), ex.truth(Sym(name.comps[0], STR)))
        runid = lambda t: z3.If(nm, name.comps[0], do_sub(ex, r'_\d+', '', Sym(fld(t, 0), STR)).t)
        no = lambda t: mno(ex, Sym(fld(t, 3), STR))
        b, r = z3.Consts('sb sr', S_STR); i = z3.Int('si')
        F = self.first
        # first(b, r, i): the least row with a score for the combination, the number of rows if there is none
        ex.assume(z3.ForAll([b, r, i], z3.And(0 <= F(b, r, i), F(b, r, i) <= n, z3.Implies(F(b, r, i) < n, z3.And(hit(F(b, r, i)), fld(F(b, r, i), 1) == b, runid(F(b, r, i)) == r, no(F(b, r, i)) == i))), patterns=[F(b, r, i)]))
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, hit(j)), F(fld(j, 1), runid(j), no(j)) <= j), patterns=[z3.Select(arrs, j)]))
        s4 = lambda t: Sym(fld(t, 4), STR)
        isint = lambda t: uf(ex, 'str_isint', [s4(t), None], BOOL).t
        ex.assume(z3.ForAll([j], self.val(j) == z3.If(isint(j), S_PV.pint(uf(ex, 'str_int', [s4(j), None], INT).t), S_PV.preal(uf(ex, 'str_float', [s4(j)], REAL).t)), patterns=[self.val(j)]))
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(hit(j), z3.Not(isint(j))), uf(ex, 'str_isfloat', [s4(j)], BOOL).t), patterns=[z3.Select(arrs, j)]))
        self.shape = getattr(self, 'shape', None)
        sh = self.shape.v if self.shape else DictS(STR, DictS(INT, REAL))
        ss = sh.sorts()
        self.DF = z3.Function('DataFrame%d' % abs(hash(repr(sh))), *(ss + [FR.sort]))
        self.UN = [z3.Function('unframe%d_%d' % (i, abs(hash(repr(sh)))), FR.sort, s) for i, s in enumerate(ss)]
        xs = [z3.Const('df%d' % i, s) for i, s in enumerate(ss)]
        ex.assume(z3.ForAll(xs, z3.And(*[u(self.DF(*xs)) == x for u, x in zip(self.UN, xs)]), patterns=[self.DF(*xs)]))
        self.parts = None
        try: ex.call(f, [path], {'name': name})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the tables are combined', self.parts is not None)

class Params(Unit):
    name = 'get_parameters'
    functions = ('trappy.wa.sysfs_extractor.SysfsExtractor.__init__', 'trappy.wa.sysfs_extractor.SysfsExtractor.get_parameters')
    assumes = ('os.listdir returns the names of the files of a directory or fails with OSError', 'file contents, isfile and re.search are functions of their arguments', 'files do not change while they are read')
    FIXED = ["integral_cutoff", "k_d", "k_i", "k_po", "k_pu", "policy", "sustainable_power"]
    def setup(self, ex):
        install_re(ex); install_files(ex)
        ex.specs['os.listdir'] = self.listdir; ex.unroll_for = 4
        ex.templates.append(self.inv)
    def listdir(self, ex, a, k):
        ex.prove("the thermal zone's directory is listed", ex.term(a[0], STR) == ex.term(self.tp, STR))
        if ex.choose('no such directory'):
            ex.raise_('OSError')
        self.listed = True
        return ex.symlist(self.files.cell.comps, STR)
    def wanted(self, ex, f): return z3.Or(has(ex, 'search', r'cdev\d+_weight', f), has(ex, 'search', r'trip_point_\d+_temp', f))
    def known(self, ex, x, upto=None):
        """x is a known parameter file"""
        n, F = self.files.cell.comps; p = self.pos(x)
        return z3.Or(z3.Or(*[x == lit(w) for w in self.FIXED]), z3.And(0 <= p, p < (n if upto is None else upto), z3.Select(F, p) == x, self.wanted(ex, Sym(x, STR))) if self.listed else z3.BoolVal(False))
    def inv(self, ctx):
        ex = ctx.ex; out = []; x = z3.Const('px', S_STR); j = z3.Int('pj')
        for l in ctx.labels:
            sh = ctx.info.mod[l]
            if isinstance(sh, ListS) and sh.elem == STR and l[0] == 'c':
                def f(c, l=l):
                    n, A = c.cur(l).cell.comps
                    return z3.And(n >= 7, z3.And(*[z3.Select(A, i) == lit(v) for i, v in enumerate(self.FIXED)]),
                                  z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), self.known(ex, z3.Select(A, j), c.k)), patterns=[z3.Select(A, j)]),
                                  z3.ForAll([x], z3.Implies(z3.And(self.known(ex, x, c.k), z3.And(*[x != lit(w) for w in self.FIXED])), z3.Exists([j], z3.And(0 <= j, j < n, z3.Select(A, j) == x), patterns=[z3.Select(A, j)])), patterns=[self.pos(x)]))
                out.append((('must', 'properties so far', l), f))
            if isinstance(sh, DictS) and sh.k == STR and not isinstance(sh.v, (DictS, ListS)) and l[0] == 'c':
                def g(c, l=l):
                    D, V = c.cur(l).cell.comps
                    at = lambda t: ex.term(c.seq.get(t), STR)
                    return z3.And(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c.k), z3.Select(D, at(j)) == self.isf(ex, at(j))), patterns=[at(j)]),
                                  z3.ForAll([x], z3.Implies(z3.Select(D, x), z3.And(self.isf(ex, x), z3.Exists([j], z3.And(0 <= j, j < c.k, at(j) == x)), self.asPV(z3.Select(V, x)) == self.value(ex, x))), patterns=[z3.Select(D, x)]))
                out.append((('must', 'entries so far', l), g))
        return out
    def asPV(self, t): return t if t.sort() == S_PV else S_PV.pint(t) if t.sort() == I else S_PV.pstr(t)
    def path(self, ex, x): return pjoin(ex, [self.tp, Sym(x, STR)], {})
    def isf(self, ex, x): return uf(ex, 'path_isfile', [self.path(ex, x)], BOOL).t
    def value(self, ex, x):
        """the file's content without one trailing newline, as an integer when it is one"""
        s = uf(ex, 'file_content', [self.path(ex, x)], STR)
        cut = uf(ex, 'str_slice', [s, ('None', -1)], STR) if False else None
        t = z3.If(uf(ex, 'str_endswith', [s, '\n'], BOOL).t, self.chop(ex, s), s.t)
        return z3.If(uf(ex, 'str_isint', [Sym(t, STR), None], BOOL).t, S_PV.pint(uf(ex, 'str_int', [Sym(t, STR), None], INT).t), S_PV.pstr(t))
    def chop(self, ex, s):
        from pyvc.lib import str_slice
        return ex.term(str_slice(ex, s, None, -1), STR)
    def script(self, ex):
        cls = ex.src('trappy.wa.sysfs_extractor', 'SysfsExtractor')
        self.listed = False
        self.files = ex.fresh(ListS(STR), 'files'); n, F = self.files.cell.comps
        path = ex.fresh(STR, 'path'); j = z3.Int('fj')
        self.pos = z3.Function('filepos', S_STR, I)
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), self.pos(z3.Select(F, j)) == j), patterns=[z3.Select(F, j)]))
        self.tp = pjoin(ex, [path, 'after', 'sys', 'devices', 'virtual', 'thermal', 'thermal_zone0'], {})
        try:
            o = ex.call(cls, [path], {})
            d = ex.call(ex.getattr(o, 'get_parameters'), [], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        D, V = ex.pack(d, DictS(STR, PV))
        x = z3.Const('qx', S_STR)
        ex.assume(self.pos(x) == self.pos(x))
        ex.prove('an entry exists exactly for the known parameter files present', z3.Select(D, x) == z3.And(self.known(ex, x), self.isf(ex, x)))
        ex.prove('the entry is the content, as an integer when it is one', z3.Implies(z3.Select(D, x), z3.Select(V, x) == self.value(ex, x)))

UNITS = [RunNumber(), Results(), Params()]
