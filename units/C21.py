"""C21: filter_output keeps exactly the unmarked lines; imports and libraries appear once per notebook."""
from pyvc.unit import *
from pyvc.models import *
START, STOP, LINE = '/* TRAPPY_PUBLISH_REMOVE_START */', '/* TRAPPY_PUBLISH_REMOVE_STOP */', '/* TRAPPY_PUBLISH_REMOVE_LINE */'
IMP, LIB = r'/\* TRAPPY_PUBLISH_IMPORT = "([^"]+)" \*/', r'<!-- TRAPPY_PUBLISH_SOURCE_LIB = "([^"]+)" -->'

class TextFile(File):
    def lines(self, ex): return uf(ex, 'file_lines', [self.path], ListS(STR))
    def py_getattr(self, ex, n):
        if n == 'readlines': return Builtin(n, lambda ex, a, k: self.lines(ex))
        return super().py_getattr(ex, n)
    def py_iter(self, ex): return ex.seqof(self.lines(ex))

SEEN = Scalar('SEENSET', z3.ArraySort(S_STR, B))
class Seen(Ext):
    """what earlier cells and lines imported: a list or set that is only tested and added to"""
    def __init__(self, g): self.g = g
    def py_contains(self, ex, x): return ex.mkbool(z3.Select(ex.ghosts[self.g].t, ex.term(x, STR)))
    def py_getattr(self, ex, n):
        if n in ('append', 'add'):
            return Builtin(n, lambda ex, a, k: ex.ghost_set(self.g, Sym(z3.Store(ex.ghosts[self.g].t, ex.term(a[0], STR), z3.BoolVal(True)), SEEN)))
        raise Unsupported('seen.' + n)

class Filter(Unit):
    name = 'filter_output'
    functions = ('trappy.nbexport.exporter.TrappyPlotterPreprocessor.filter_output', 'trappy.nbexport.exporter.TrappyPlotterPreprocessor.__init__')
    budget = 300
    assumes = ("text.split('\\n') lists the lines of the text and '\\n'.join(list) is the text with exactly those lines", 'readlines() lists the lines of the named file, rstrip("\\n") removes the line end', 're.search as a function of pattern and subject', 'the named file is a path below the package directory and is readable')
    def setup(self, ex):
        install_re(ex); install_files(ex, TextFile)
        ex.specs['os.path.dirname'] = lambda ex, a, k: __import__('os').path.dirname(a[0]) if isinstance(a[0], str) else uf(ex, 'path_dirname', [ex.force(a[0])], STR)
        ex.templates.append(self.inv)
    def inv(self, ctx):
        out = []; q = z3.Int('oq')
        if ctx.seq is None: return []
        sh = lambda l: ctx.info.mod[l]
        for l in ctx.labels:
            if l[0] == 'v' and sh(l) == BOOL: out.append((('must', 'removing', l), lambda c, l=l: tbool(c.cur(l)) == self.off(c.k)))
            if l == ('gh', 'files'): out.append((('must', 'imported files', l), lambda c, l=l: c.cur(l).t == self.fset(c.k)))
            if l == ('gh', 'libs'): out.append((('must', 'sourced libraries', l), lambda c, l=l: c.cur(l).t == self.lset(c.k)))
            if sh(l) == ListS(STR) and (l[0] == 'c' or (l[0] == 'v' and isinstance(ctx.entry.get(l), VList))):
                outer = z3.is_expr(ctx.n) and z3.eq(z3.simplify(ctx.n), self.N)
                n0 = None if outer else ctx.ex.pack(ctx.entry[l], ListS(STR))[0]
                def lines(c, l=l, n0=n0):
                    n, A = c.cur(l).cell.comps
                    return z3.And(n == (self.pos(c.k) if n0 is None else n0 + c.k), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.Select(A, q) == self.R(q)), patterns=[z3.Select(A, q)]))
                out.append((('must', 'lines so far', l), lines))
        return out
    def script(self, ex):
        cls = ex.src('trappy.nbexport.exporter', 'TrappyPlotterPreprocessor')
        ob = PyObj(ex, cls)
        text = ex.fresh(STR, 'output')
        L = uf(ex, 'str_split', [text, '\n'], ListS(STR)); self.N, A = L.cell.comps
        line = lambda t: z3.Select(A, t)
        sy = lambda t: Sym(t, STR)
        inn = lambda m, t: tbool(ex.contains(sy(line(t)), m))
        F = lambda nm, *s: z3.Function(nm, *s)
        SS = z3.ArraySort(S_STR, B)
        self.off, self.pos, self.R = F('off', I, B), F('pos', I, I), F('published', I, S_STR)
        self.fset, self.lset = F('files_before', I, SS), F('libs_before', I, SS)
        k, q = z3.Ints('k q')
        name = lambda t: Match('search', IMP, sy(line(t))).grp(ex, 1)
        import os; base = os.path.dirname(os.path.dirname(os.path.join(ex.repo, 'trappy/nbexport/exporter.py')))
        fkey = lambda t: pjoin(ex, [base, name(t)], {}).t
        lkey = lambda t: Match('search', LIB, sy(line(t))).grp(ex, 1).t
        flines = lambda p: uf(ex, 'file_lines', [sy(p)], ListS(STR)).cell.comps
        # the statement, line by line: line k leaves cnt(k) lines from position pos(k) on
        off, pos, R, fset, lset = self.off, self.pos, self.R, self.fset, self.lset
        T = z3.BoolVal(True)
        keep = z3.And(z3.Not(inn(START, k)), z3.Not(inn(STOP, k)), z3.Not(off(k)), z3.Not(inn(LINE, k)))
        imp = z3.And(keep, has(ex, 'search', IMP, sy(line(k)))); lib_ = z3.And(keep, z3.Not(has(ex, 'search', IMP, sy(line(k)))), has(ex, 'search', LIB, sy(line(k))))
        plain = z3.And(keep, z3.Not(has(ex, 'search', IMP, sy(line(k)))), z3.Not(has(ex, 'search', LIB, sy(line(k)))))
        newf = z3.And(imp, z3.Not(z3.Select(fset(k), fkey(k)))); newl = z3.And(lib_, z3.Not(z3.Select(lset(k), lkey(k))))
        tag = mkcat(['<script src="', sy(lkey(k)), '" type="text/javascript" charset="utf-8"></script>']).t
        body = lambda t: uf(ex, 'str_rstrip', [sy(z3.Select(flines(fkey(k))[1], t)), '\n'], STR).t
        m = flines(fkey(k))[0]
        ex.assume(z3.And(z3.Not(off(0)), pos(0) == 0))
        rng = z3.And(0 <= k, k < self.N)
        def each(f): ex.assume(z3.ForAll([k], z3.Implies(rng, f), patterns=[line(k)]))
        each(off(k + 1) == z3.Or(inn(START, k), z3.And(z3.Not(inn(STOP, k)), off(k))))
        each(fset(k + 1) == z3.If(imp, z3.Store(fset(k), fkey(k), T), fset(k)))
        each(lset(k + 1) == z3.If(lib_, z3.Store(lset(k), lkey(k), T), lset(k)))
        each(pos(k + 1) == pos(k) + z3.If(newf, m, z3.If(z3.Or(newl, plain), 1, 0)))
        each(z3.And(m >= 0, pos(k) >= 0))
        each(z3.Implies(plain, R(pos(k)) == line(k)))
        each(z3.Implies(newl, R(pos(k)) == tag))
        ex.assume(z3.ForAll([k, q], z3.Implies(z3.And(rng, newf, pos(k) <= q, q < pos(k) + m), R(q) == body(q - pos(k))), patterns=[z3.MultiPattern(line(k), R(q))]))
        ex.call(ex.getattr(ob, '__init__'), [], {})
        for n, g, init in (('inlined_files', 'files', fset), ('sourced_libs', 'libs', lset)):      # any cells may have come before
            if isinstance(ob.attrs[n], VList): ex.prove('a notebook starts with nothing imported (%s)' % g, z3.BoolVal(not ex.need_items(ob.attrs[n])))
            ex.ghosts[g] = Sym(init(0), SEEN); ob.attrs[n] = Seen(g)
        try: r = ex.call(ex.getattr(ob, 'filter_output'), [text], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        j = ex.joins.get(r.t.get_id()) if isinstance(r, Sym) else None
        if j is None or j[1] != '\n': ex.prove('the result is a list of lines', False); return
        n, RR = j[2]
        ex.prove('as many lines as are kept, imported or sourced', n == pos(self.N))
        qq = ex.fresh(INT, 'q').t; ex.assume(z3.And(0 <= qq, qq < n))
        ex.prove('every line is the next kept line, imported line or script tag, in order', z3.Select(RR, qq) == R(qq))
        ex.prove('later cells know the imported files', ex.ghosts['files'].t == fset(self.N))
        ex.prove('later cells know the sourced libraries', ex.ghosts['libs'].t == lset(self.N))

class Output(ExtU):
    """an output of a cell"""
    def py_getattr(self, ex, n):
        if n == 'output_type': return Sym(o_type(self.t), STR)
        if n == 'data':
            if not ex.decide(z3.Or(o_type(self.t) == ex.term('display_data', STR), o_type(self.t) == ex.term('execute_result', STR))): ex.raise_('AttributeError', n)
            return OutData(self.t)
        return super().py_getattr(ex, n)
class OutData(Ext):
    """the data of an output by format"""
    def __init__(self, o): self.o = o
    def key(self, ex, k):
        if k != 'text/html': raise Unsupported('output data %r' % (k,))
    def py_contains(self, ex, k): self.key(ex, k); return ex.mkbool(o_html(self.o))
    def py_getattr(self, ex, n):
        if n != 'text/html': raise Unsupported('output data attribute ' + n)
        if not ex.decide(o_html(self.o)): ex.raise_('AttributeError', n)
        return Sym(z3.Select(ex.ghosts['html'].t, self.o), STR)
    def py_getitem(self, ex, k):
        self.key(ex, k)
        if not ex.decide(o_html(self.o)): ex.raise_('KeyError', k)
        return Sym(z3.Select(ex.ghosts['html'].t, self.o), STR)
    def py_setitem(self, ex, k, v):
        self.key(ex, k)
        ex.prove('only outputs with HTML get HTML', o_html(self.o))
        ex.ghost_set('html', Sym(z3.Store(ex.ghosts['html'].t, self.o, ex.term(v, STR)), AHTML))
OUT = U('Output', Output); S_OUT = OUT.sort
o_type, o_html = z3.Function('output_type', S_OUT, S_STR), z3.Function('output_has_html', S_OUT, B)
AHTML = Scalar('HTML_OF', z3.ArraySort(S_OUT, S_STR))
class Resources(Ext): pass
class CellOf(Ext):
    def __init__(self, u): self.u = u
    def py_getattr(self, ex, n):
        if n == 'cell_type': return Sym(self.u.ctype, STR)
        if n == 'outputs':
            if not ex.decide(self.u.has): ex.raise_('AttributeError', n)
            return self.u.outs
        return super().py_getattr(ex, n)
class Cells(Unit):
    """every displayed HTML output of a code cell is replaced by its filtered text, in order; nothing else changes"""
    name = 'preprocess_cell'
    functions = ('trappy.nbexport.exporter.TrappyPlotterPreprocessor.preprocess_cell',)
    budget = 120
    assumes = ('the outputs of a cell are distinct objects; displayed outputs and results have data, by format', 'the notebook object gives the formats of an output as attributes and as items')
    def setup(self, ex):
        def filt(ex, a, k):
            ex.prove('the notebook\'s own record of imports is used', z3.BoolVal(bool(a) and a[0] is self.ob))
            t = (list(a) + list(k.values()))[-1]; c = ex.ghosts['calls'].t
            ex.ghost_set('calls', Sym(c + 1, INT)); return Sym(self.filt(c, ex.term(t, STR)), STR)
        ex.specs['trappy.nbexport.exporter.TrappyPlotterPreprocessor.filter_output'] = filt
        self.filt = z3.Function('filtered', I, S_STR, S_STR)
        ex.templates.append(self.inv)
    def want(self, H0, o, k): p = self.pos(o); return z3.If(z3.And(self.mem(o), p < k, self.cond(o)), self.filt(self.cnt(p), z3.Select(H0, o)), z3.Select(H0, o))
    def inv(self, ctx):
        if ctx.seq is None: return []
        out = []; o = z3.Const('po', S_OUT)
        for l in ctx.labels:
            if l == ('gh', 'calls'): out.append((('must', 'filtered so far', l), lambda c, l=l: z3.And(c.n == self.n, c.cur(l).t == self.cnt(c.k))))
            if l == ('gh', 'html'): out.append((('must', 'texts so far', l), lambda c, l=l: z3.ForAll([o], z3.Select(c.cur(l).t, o) == self.want(self.H0, o, c.k), patterns=[z3.Select(c.cur(l).t, o)] if z3.is_const(c.cur(l).t) else [self.pos(o)])))
        return out
    def script(self, ex):
        ob = self.ob = PyObj(ex, ex.src('trappy.nbexport.exporter', 'TrappyPlotterPreprocessor'))
        self.outs = ex.fresh(ListS(OUT), 'outputs'); self.n, A = self.outs.cell.comps
        self.ctype, self.has = ex.fresh(STR, 'cell_type').t, ex.fresh(BOOL, 'has_outputs').t
        self.pos, self.mem, self.cnt = z3.Function('output_pos', S_OUT, I), z3.Function('is_output', S_OUT, B), z3.Function('filtered_before', I, I)
        self.cond = lambda o: z3.And(o_type(o) == ex.term('display_data', STR), o_html(o))
        i = z3.Int('oi'); o = z3.Const('oo', S_OUT)
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.And(self.mem(z3.Select(A, i)), self.pos(z3.Select(A, i)) == i)), patterns=[z3.Select(A, i)]))
        ex.assume(z3.ForAll([o], z3.Implies(self.mem(o), z3.And(0 <= self.pos(o), self.pos(o) < self.n, z3.Select(A, self.pos(o)) == o)), patterns=[self.pos(o), self.mem(o)]))
        ex.assume(z3.And(self.cnt(0) == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), self.cnt(i + 1) == self.cnt(i) + z3.If(self.cond(z3.Select(A, i)), 1, 0)), patterns=[z3.Select(A, i)])))
        self.H0 = ex.fresh(AHTML, 'html').t; ex.ghosts['html'] = Sym(self.H0, AHTML); ex.ghosts['calls'] = Sym(z3.IntVal(0), INT)
        cell, res = CellOf(self), Resources()
        try: r = ex.call(ex.getattr(ob, 'preprocess_cell'), [cell, res, ex.fresh(INT, 'index')], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the cell and the resources are handed on', z3.BoolVal(isinstance(r, tuple) and len(r) == 2 and r[0] is cell and r[1] is res))
        x = ex.fresh(OUT, 'x').t; k = z3.If(z3.And(self.ctype == ex.term('code', STR), self.has), self.n, z3.IntVal(0))
        ex.prove('displayed HTML is replaced by its filtered text, all other outputs stay', z3.Select(ex.ghosts['html'].t, x) == self.want(self.H0, x, k))
        ex.prove('nothing else is filtered', ex.ghosts['calls'].t == self.cnt(k))
UNITS = [Filter(), Cells()]
