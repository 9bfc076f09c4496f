"""C01: every recognised event line becomes exactly one row in exactly one table."""
from units.populate import *

class GetClass(Unit):
    name = '__get_trace_class'
    functions = ('trappy.ftrace.GenericFTrace.__get_trace_class',)
    assumes = ('the keyword table maps keywords to event classes with that keyword (proved in __parse_trace_file)',)
    def setup(self, ex): ex.templates.append(self.inv)
    def inv(self, ctx):
        ex = ctx.ex; out = []; j = z3.Int('gj')
        if ctx.seq is None: return []
        def kv(c, t):
            x = c.seq.get(t)
            if isinstance(x, tuple): return ex.term(x[0], STR)
            if isinstance(x, TraceClass): return word(x.t)
            return ex.term(x, STR)
        V = lambda key: z3.Select(self.V, key)
        inn = lambda key: tbool(ex.contains(self.line, Sym(key, STR)))
        for l in ctx.labels:
            sh = ctx.info.mod[l]
            if l[0] != 'v' or not isinstance(sh, OptS) or sh != OptS(TC): continue
            def f(c, l=l):
                v = c.cur(l); isn, t = (v.isnone, v.comps[0]) if isinstance(v, VOpt) else (z3.BoolVal(True), None) if v is None else (z3.BoolVal(False), v.t)
                key = lambda t: kv(c, t)
                a = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c.k, inn(key(j))), z3.And(z3.Not(isn), fallback(V(key(j))))), patterns=[key(j)])
                b = z3.BoolVal(True) if t is None else z3.Implies(z3.Not(isn), z3.And(z3.Select(self.D, word(t)), V(word(t)) == t, inn(word(t)), fallback(t)))
                return z3.And(a, b)
            out.append((('must', 'best so far', l), f))
        return out
    def script(self, ex):
        cls = ex.src('trappy.ftrace', 'FTrace'); ob = PyObj(ex, cls)
        d = ex.fresh(DictS(STR, TC), 'cls_word'); self.D, self.V = d.cell.comps
        self.line = line = ex.fresh(STR, 'line'); x = z3.Const('wx', S_STR)
        ex.assume(z3.ForAll([x], z3.Implies(z3.Select(self.D, x), word(z3.Select(self.V, x)) == x), patterns=[z3.Select(self.V, x)]))
        m = ex.src('trappy.ftrace', 'GenericFTrace.__get_trace_class')
        try: r = ex.call(m, [ob, line, d], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        r = ex.force(r)
        w = ex.fresh(STR, 'w').t; here = z3.And(z3.Select(self.D, w), tbool(ex.contains(line, Sym(w, STR))))
        if r is None: ex.prove('a line with a keyword is recognised', z3.Not(here)); return
        ex.prove("the selected class is a requested one whose keyword occurs in the line", z3.And(z3.Select(self.D, word(r.t)), z3.Select(self.V, word(r.t)) == r.t, tbool(ex.contains(line, Sym(word(r.t), STR)))))
        ex.prove('a fallback is selected only if no other keyword occurs', z3.Implies(z3.And(here, fallback(r.t)), fallback(z3.Select(self.V, w))))

class ParseFile(Unit):
    name = '__parse_trace_file'
    functions = ('trappy.ftrace.GenericFTrace.__parse_trace_file',)
    assumes = ('the event object of an event has the class of its definition: its keyword is the keyword of the class (proved in C11)', 'io.open yields the lines of the file')
    def setup(self, ex):
        install_files(ex); ex.specs['io.open'] = ex.specs['builtins.open']
        ex.specs['trappy.ftrace.GenericFTrace.__populate_data'] = self.populate
        ex.specs['builtins.getattr'] = lambda ex, a, k: TraceClass(self.ev(ex.term(a[1], STR)), TC) if a[0] is self.ob else lib['builtins.getattr'](ex, a, k)
        ex.templates.append(self.inv)
    def inv(self, ctx):
        ex = ctx.ex; out = []; j = z3.Int('fj'); x = z3.Const('fx', S_STR)
        if ctx.seq is None: return []
        for l in ctx.labels:
            sh = ctx.info.mod[l]
            if l[0] != 'c' or not isinstance(sh, DictS) or sh.v != TC: continue
            def f(c, l=l):
                D, V = c.cur(l).cell.comps
                def key(t):
                    y = c.seq.get(t); return ex.term(y[0] if isinstance(y, tuple) else y, STR)
                e = lambda t: self.ev(key(t))
                return z3.And(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c.k, z3.Not(cached(e(j)))), z3.And(z3.Select(D, word(e(j))), z3.Select(V, word(e(j))) == e(j))), patterns=[key(j)]),
                              z3.ForAll([x], z3.Implies(z3.Select(D, x), z3.And(word(z3.Select(V, x)) == x, z3.Not(cached(z3.Select(V, x))), z3.Select(self.D, self.nm(z3.Select(V, x))), self.ev(self.nm(z3.Select(V, x))) == z3.Select(V, x), *([c.seq.inv.pos(self.nm(z3.Select(V, x))) < c.k] if c.seq.inv else []))), patterns=[z3.Select(D, x), z3.Select(V, x)]))
            out.append((('must', 'keyword table', l), f))
        return out
    def populate(self, ex, a, k):
        self.called += 1
        if len(a) != 3 or k or not isinstance(a[2], VDict): raise Unsupported('__populate_data arguments')
        ex.prove('the lines of the given file are parsed', isinstance(a[1], File) and a[1].path is self.path)
        ex.prove('line numbers count from the first line', ex.term(self.ob.attrs.get('lines', -1), INT) == 0)
        sh = DictS(STR, TC)
        D, V = ex.dict_comps(a[2], sh) if a[2].cell.items is None else ex.pack(a[2], sh)
        q = ex.fresh(STR, 'q').t; e = self.ev(q)
        ex.prove('every requested event that is not cached is looked for by its keyword', z3.Implies(z3.And(z3.Select(self.D, q), z3.Not(cached(e))), z3.And(z3.Select(D, word(e)), z3.Select(V, word(e)) == e)))
        ex.prove('the keyword table maps keywords to classes with that keyword', z3.Implies(z3.Select(D, q), z3.And(word(z3.Select(V, q)) == q, z3.Not(cached(z3.Select(V, q))))))
        v = z3.Select(V, q)
        ex.prove('nothing else is looked for', z3.Implies(z3.Select(D, q), z3.And(z3.Select(self.D, self.nm(v)), self.ev(self.nm(v)) == v)))
        return None
    def script(self, ex):
        cls = ex.src('trappy.ftrace', 'FTrace'); self.ob = ob = PyObj(ex, cls)
        S_CLS = sort('ClassDef'); CLS = U('ClassDef')
        cd = ex.fresh(DictS(STR, CLS), 'class_definitions'); self.D = cd.cell.comps[0]
        ob.attrs.update(class_definitions=cd)
        self.ev = z3.Function('event_object', S_STR, S_TC); self.nm = z3.Function('event_name', S_TC, S_STR)
        x, y = z3.Consts('ex ey', S_STR)
        ex.assume(z3.ForAll([x], self.nm(self.ev(x)) == x, patterns=[self.ev(x)]))
        # no keyword of a selected event is part of another's (checked when the trace is opened: C11)
        ex.assume(z3.ForAll([x, y], z3.Implies(z3.And(z3.Select(self.D, x), z3.Select(self.D, y), x != y), word(self.ev(x)) != word(self.ev(y))), patterns=[z3.MultiPattern(self.ev(x), self.ev(y))]))
        self.path = ex.fresh(STR, 'path'); self.called = 0
        m = ex.src('trappy.ftrace', 'GenericFTrace.__parse_trace_file')
        try: ex.call(m, [ob, self.path], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the file is parsed exactly once', self.called == 1)
UNITS = [GetClass(), ParseFile(), Populate('C01')]
