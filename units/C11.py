"""C11: event selection, ambiguous keywords and the registry of events."""
from pyvc.unit import *
from pyvc.models import *

class EventClass(ExtU):
    """an event class: a keyword and a name"""
    def py_getattr(self, ex, n):
        if n == 'unique_word': return Sym(word(self.t), STR)
        if n == 'name': return Sym(cname(self.t), STR)
        if n == '__name__': return Sym(z3.Function('class_python_name', S_C, S_STR)(self.t), STR)
        return super().py_getattr(ex, n)
    def py_hasattr(self, ex, n):
        if n in ('name', 'unique_word', '__name__'): return True
        raise Unsupported('hasattr %s of an event class' % n)
    def py_call(self, ex, a, k):
        if a or k: ex.prove('event classes are instantiated without arguments', False)
        return ex.new_instance(ex, self.t)
    def py_truth(self, ex): return True
    def py_eq(self, ex, o): return self.t == o.t if isinstance(o, EventClass) else False
class Unnamed(EventClass):
    """an event class without a name"""
    named = None
    def py_getattr(self, ex, n):
        if n == 'name' and self.named is None: ex.raise_('AttributeError', n)
        return super().py_getattr(ex, n)
    def py_hasattr(self, ex, n): return self.named is not None if n == 'name' else super().py_hasattr(ex, n)
    def py_setattr(self, ex, n, v):
        if n != 'name': return super().py_setattr(ex, n, v)
        w = ex.getitem(ex.call(ex.getattr(Sym(word(self.t), STR), 'split'), [':'], {}), 0)
        ex.prove('a class without a name gets its keyword up to the colon', self.named is None and ex.eq(v, w)); self.named = v; ex.assume(cname(self.t) == ex.term(v, STR))
C = U('EventClass', EventClass); S_C = C.sort
word, cname = z3.Function('class_word', S_C, S_STR), z3.Function('class_name', S_C, S_STR)
generic = z3.Function('generic_class', S_STR, S_C)
S_I = sort('EventInstance')
class Instance(ExtU):
    def py_truth(self, ex): return True
INST = U('EventInstance', Instance)
made_by = z3.Function('instance_of', S_I, S_C)
colon = lambda e: ex_term(mkcat([e, ':']))
def ex_term(v): return lit(v) if isinstance(v, str) else v.t
SCOPES = ('thermal', 'sched', 'dynamic')
G = 'trappy.ftrace.GenericFTrace'

def registry(ex):
    """the three registries with arbitrary content; a class is registered under its name"""
    K = ex.src('trappy.ftrace', 'GenericFTrace'); R = {}
    x = z3.Const('rk', S_STR); doms = []
    for s in SCOPES:
        d = ex.fresh(DictS(STR, C), s + '_classes'); dom, val = d.cell.comps
        ex.assume(z3.ForAll([x], z3.Implies(z3.Select(dom, x), cname(z3.Select(val, x)) == x), patterns=[z3.Select(val, x)]))
        K.attrs[s + '_classes'] = d; R[s] = (d, dom, val)
    return R
def merged(R, names, x):
    """(is registered in one of the scopes, the class): the last scope wins"""
    dom, val = z3.BoolVal(False), None
    for s in names:
        _, d, v = R[s]; dom = z3.Or(dom, z3.Select(d, x)); val = z3.Select(v, x) if val is None else z3.If(z3.Select(d, x), z3.Select(v, x), val)
    return dom, val
class Defs(Ext):
    """the class definitions of a trace object while events are added; dom/val/done are ghosts"""
    def __init__(self, u): self.u = u
    def py_setitem(self, ex, n, c): self.u.define(ex, ex.term(n, STR), ex.term(c, C))
    def py_contains(self, ex, n): return ex.mkbool(z3.Select(ex.ghosts['dom'].t, ex.term(n, STR)))
    def py_getattr(self, ex, n):
        if n == 'setdefault' : raise Unsupported('setdefault')
        return super().py_getattr(ex, n)
SB = Scalar('BY_STRING_B', z3.ArraySort(S_STR, B)); SC = Scalar('BY_STRING_C', z3.ArraySort(S_STR, S_C))
def matches(c, e): return z3.Or(e == word(c), colon(Sym(e, STR)) == word(c), e == cname(c))
class AddEvents(Unit):
    """every requested event gets a known class that matches it, or the generic class of its name if there is none; nothing else is defined"""
    name = '__add_events'; functions = (G + '.__add_events',); budget = 120
    assumes = ('every registered class is registered under its name (proved for register_parser)', 'DynamicTypeFactory makes a class with the given attributes')
    def setup(self, ex):
        ex.specs['trappy.dynamic.DynamicTypeFactory'] = self.make
        ex.templates.append(self.inv)
    def make(self, ex, a, k):
        base, init = ex.src('trappy.base', 'Base'), ex.src('trappy.dynamic', 'default_init')
        e = a[0]; bases, d = a[1], a[2]; t = ex.term(e, STR)
        ex.prove('a generic parser derives from Base', isinstance(bases, tuple) and len(bases) == 1 and bases[0] is base)
        it = dict(d.cell.items) if isinstance(d, VDict) and d.cell.items is not None else {}
        ok = {'__init__', 'unique_word', 'name'} <= set(it) and it['__init__'] is init
        ex.prove('a generic parser is keyed on its name followed by a colon', ok and z3.And(ex.term(it['unique_word'], STR) == colon(e), ex.term(it['name'], STR) == t))
        ex.prove('a generic parser changes nothing else of Base', set(it) == {'__init__', 'unique_word', 'name'})
        return C.unpack(ex, [generic(t)])
    def known(self, x): return self.kd(x), self.kv(x)
    def ok(self, c, e):
        """class c serves the requested event e"""
        kd, kv = self.known(cname(c))
        return z3.Or(z3.And(kd, kv == c, matches(c, e)), z3.And(z3.Not(self.anyknown(e)), c == generic(e)))
    def define(self, ex, n, c):
        g = ex.ghosts; dom, val, done = g['dom'].t, g['val'].t, g['done'].t
        ex.prove('a class is defined under its name', n == cname(c))
        ex.prove('no definition is replaced by another class', z3.Implies(z3.Select(dom, n), z3.Select(val, n) == c))
        j = ex.loops[0].k       # the request that is served
        ev = z3.Select(self.evs.cell.comps[1], j.t if isinstance(j, Sym) else j)
        ex.prove('only classes that match the requested event are defined, a generic one only if there is none', self.ok(c, ev))
        ex.ghost_set('dom', Sym(z3.Store(dom, n, z3.BoolVal(True)), SB)); ex.ghost_set('val', Sym(z3.Store(val, n, c), SC))
        x = z3.Const('dx', S_STR); nd = ex.fresh_term(done.sort(), 'done')
        ex.assume(z3.ForAll([x], z3.Select(nd, x) == z3.Or(z3.Select(done, x), self.ok(c, x)), patterns=[z3.Select(nd, x)]))
        ex.ghost_set('done', Sym(nd, SB))
    def inv(self, ctx):
        ex = ctx.ex
        if ctx.seq is not None and getattr(ctx.seq, 'kinv', None) is not None and ex.loops:
            iv = ctx.seq.kinv; j = ex.loops[0].k; e = z3.Select(self.evs.cell.comps[1], j.t if isinstance(j, Sym) else j); x = z3.Const('nx', S_STR)
            return [(('must', 'no class before matches'), lambda c: z3.ForAll([x], z3.Implies(z3.And(iv.member(x), iv.pos(x) < c.k), z3.Not(matches(self.known(x)[1], e))), patterns=[iv.pos(x), self.kd(x)]))]
        if ctx.seq is None or ('gh', 'done') not in ctx.labels or ex.loops: return []
        i = z3.Int('ai'); ev = lambda i: z3.Select(self.evs.cell.comps[1], i)
        x = z3.Const('sx', S_STR)
        def std(c):
            d, v = self.known(x); dom, val = ex.ghosts['dom'].t, ex.ghosts['val'].t
            return z3.ForAll([x], z3.Implies(z3.Select(dom, x), z3.Select(val, x) == z3.If(d, v, generic(x))), patterns=[z3.Select(dom, x)])
        return [(('must', 'one class for each name'), std), (('must', 'requested events so far'), lambda c: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.k), z3.Select(ex.ghosts['done'].t, ev(i))), patterns=[ev(i)]))]
    def script(self, ex):
        ob = PyObj(ex, ex.src('trappy.ftrace', 'FTrace')); self.R = registry(ex)
        self.anyknown = z3.Function('known_event', S_STR, B); wit = z3.Function('known_event_name', S_STR, S_STR)
        e, x = z3.Const('ke', S_STR), z3.Const('kx', S_STR)
        self.kd, self.kv = z3.Function('known', S_STR, B), z3.Function('known_class', S_STR, S_C); d, v = merged(self.R, SCOPES, x)
        ex.assume(z3.ForAll([x], self.kd(x) == d, patterns=[self.kd(x)])); ex.assume(z3.ForAll([x], self.kv(x) == v, patterns=[self.kv(x)]))
        for s in SCOPES: ex.assume(z3.ForAll([x], self.kd(x) == d, patterns=[z3.Select(self.R[s][1], x)]))
        d, v = self.known(wit(e)); ex.assume(z3.ForAll([e], z3.Implies(self.anyknown(e), z3.And(d, matches(v, e))), patterns=[self.anyknown(e)]))
        dd, vv = self.known(x); ex.assume(z3.ForAll([e, x], z3.Implies(z3.And(dd, matches(vv, e)), self.anyknown(e)), patterns=[z3.MultiPattern(self.anyknown(e), self.kd(x))]))
        ex.assume(z3.ForAll([e], z3.And(cname(generic(e)) == e, word(generic(e)) == colon(Sym(e, STR))), patterns=[generic(e)]))
        self.evs = ex.fresh(ListS(STR), 'events')
        ob.attrs['class_definitions'] = Defs(self)
        ex.ghosts['dom'] = Sym(z3.K(S_STR, z3.BoolVal(False)), SB); ex.ghosts['val'] = ex.fresh(SC, 'val'); ex.ghosts['done'] = Sym(z3.K(S_STR, z3.BoolVal(False)), SB)
        try: ex.call(ex.getattr(ob, '__add_events'), [self.evs], {})
        except PyRaise as x: ex.prove('never fails (%s)' % x.exc.name, False); return
        q = ex.fresh(INT, 'q').t; n, A = self.evs.cell.comps
        ex.prove('every requested event is defined', z3.Implies(z3.And(0 <= q, q < n), z3.Select(ex.ghosts['done'].t, z3.Select(A, q))))
class Init(Unit):
    """the scope selects the registries, ambiguous keywords are rejected, every definition gets its own table"""
    name = '__init__'; functions = (G + '.__init__', 'trappy.bare_trace.BareTrace.__init__', 'trappy.utils.listify'); budget = 150
    assumes = ('__add_events by its contract; _do_parse by its contract (C07, C09)', 'itertools.combinations gives every pair of different positions')
    def setup(self, ex):
        ex.specs[G + '.__add_events'] = self.add; ex.specs[G + '._do_parse'] = self.do_parse
        ex.new_instance = self.new_instance
        ex.templates.append(self.inv)
    def add(self, ex, a, k):
        ok = isinstance(a[1], VList) and a[1].cell is self.evs.cell
        ex.prove('the requested events are added', ok)
        d = a[0].attrs.get('class_definitions')
        ex.prove('no event is defined before the requested ones', isinstance(d, VDict) and d.cell.items == [])
        self.req = q = ex.fresh(DictS(STR, C), 'requested'); a[0].attrs['class_definitions'] = q; self.reqc = list(q.cell.comps); self.added += 1; self.define_final(ex)
    def new_instance(self, ex, c):
        n = ex.fresh(INST, 'instance'); cnt = ex.ghosts['made'].t
        old = ex.ghosts['fresh'].t; ex.assume(z3.Not(z3.Select(old, n.t))); ex.assume(made_by(n.t) == c)
        ex.ghost_set('fresh', Sym(z3.Store(old, n.t, z3.BoolVal(True)), IB)); ex.ghost_set('made', Sym(cnt + 1, INT))
        return n
    def setattr_(self, ex, n, v):
        if not isinstance(v, ExtU): raise Unsupported('attribute of the trace set to %r' % (v,))
        g = ex.ghosts; t = ex.term(n, STR)
        ex.ghost_set('has', Sym(z3.Store(g['has'].t, t, z3.BoolVal(True)), SB)); ex.ghost_set('table', Sym(z3.Store(g['table'].t, t, v.t), SI))
    def final(self, x): return self.fd(x), self.fv(x)
    def define_final(self, ex):
        """the selected events: the requested ones and those of the scope's registries (later ones win)"""
        self.fd, self.fv = ex.fresh_fun('selected', S_STR, B), ex.fresh_fun('selected_class', S_STR, S_C); x = z3.Const('fx', S_STR)
        d, v = self.reqc; dom, val = z3.Select(d, x), z3.Select(v, x)
        for s in self.scopes: dom, val = z3.Or(dom, z3.Select(self.R[s][1], x)), z3.If(z3.Select(self.R[s][1], x), z3.Select(self.R[s][2], x), val)
        ex.assume(z3.ForAll([x], self.fd(x) == dom, patterns=[self.fd(x)])); ex.assume(z3.ForAll([x], self.fv(x) == val, patterns=[self.fv(x)]))
    def amb(self, x, y):
        """the keyword of one selected event is part of the other's"""
        f = z3.Function('str_contains', S_STR, S_STR, B); wx, wy = word(self.final(x)[1]), word(self.final(y)[1])
        return z3.Or(f(wx, wy), f(wy, wx))
    def inv(self, ctx):
        ex = ctx.ex
        if ctx.seq is None or ex.loops: return []
        p = ctx.seq.pairs; out = []
        if p is not None and getattr(p[3], 'kinv', None) is not None:
            F, S, N, s = p; kv = s.kinv; c = z3.Int('cc')
            out.append((('must', 'no pair before is ambiguous'), lambda x: z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < x.k), z3.Not(self.amb(kv.key(F(c)), kv.key(S(c))))), patterns=[F(c)])))
            self.pairs = (ctx, F, S, N, kv)
        iv = ctx.seq.inv
        if iv is not None and ('gh', 'has') in ctx.labels:
            x, c = z3.Const('ix', S_STR), z3.Int('ic'); g = ex.ghosts
            out.append((('must', 'tables so far'), lambda q: z3.ForAll([x], z3.And(z3.Select(g['has'].t, x) == z3.And(iv.member(x), iv.pos(x) < q.k),
                z3.Implies(z3.Select(g['has'].t, x), z3.And(made_by(z3.Select(g['table'].t, x)) == self.final(x)[1], z3.Select(g['fresh'].t, z3.Select(g['table'].t, x))))), patterns=[z3.Select(g['has'].t, x)])))
            for l in ctx.labels:
                sh = ctx.info.mod[l]
                if l[0] == 'c' and isinstance(sh, ListS) and sh.elem == INST:
                    def lst(q, l=l):
                        n, A = q.cur(l).cell.comps
                        return z3.And(n == q.k, z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < q.k), z3.Select(A, c) == z3.Select(g['table'].t, iv.key(c))), patterns=[z3.Select(A, c)]))
                    out.append((('must', 'the list of tables so far', l), lst))
            y = z3.Const('iy', S_STR)
            out.append((('must', 'tables differ'), lambda q: z3.ForAll([x, y], z3.Implies(z3.And(z3.Select(g['has'].t, x), z3.Select(g['has'].t, y), x != y), z3.Select(g['table'].t, x) != z3.Select(g['table'].t, y)), patterns=[z3.MultiPattern(z3.Select(g['has'].t, x), z3.Select(g['has'].t, y))])))
        return out
    def do_parse(self, ex, a, k):
        self.parsed += 1; at = a[0].attrs; x = ex.fresh(STR, 'anyname').t; y = ex.fresh(STR, 'othername').t; g = ex.ghosts
        dx, vx = self.final(x); dy, vy = self.final(y)
        def hint(t): ex.assume(ex.fresh(Scalar('H', t.sort()), 'hint').t == t)
        if isinstance(at['class_definitions'], VDict) and at['class_definitions'].cell.items is None:
            for p in (x, y): hint(z3.Select(at['class_definitions'].cell.comps[0], p)); hint(z3.Select(g['has'].t, p))
        if self.pairs:
            _, F, S, N, iv = self.pairs
            for p, q in ((x, y), (y, x)): hint(N(iv.pos(p), iv.pos(q)))
        ex.prove('no two selected events have ambiguous keywords', z3.Not(z3.And(dx, dy, x != y, self.amb(x, y))))
        d = at['class_definitions']
        ok = isinstance(d, VDict) and d.cell.items is None
        ex.prove('exactly the requested events and those of the scope are selected', ok and z3.And(z3.Select(d.cell.comps[0], x) == dx, z3.Implies(dx, z3.Select(d.cell.comps[1], x) == vx)))
        ex.prove('every selected event has a table under its name, nothing else does', z3.Select(g['has'].t, x) == dx)
        ex.prove('the table is of the class of the event', z3.Implies(dx, made_by(z3.Select(g['table'].t, x)) == vx))
        ex.prove('every event has a table of its own', z3.Implies(z3.And(dx, dy, x != y), z3.Select(g['table'].t, x) != z3.Select(g['table'].t, y)))
        l = at['trace_classes']; q = ex.fresh(INT, 'q').t
        if isinstance(l, VList) and ok:
            n, A = ex.list_comps(l, ListS(INST)); m, K, ks = ex.enum(d)
            ex.prove('the trace has one table per selected event', z3.And(n == m, z3.Implies(z3.And(0 <= q, q < n), z3.Select(A, q) == z3.Select(g['table'].t, z3.Select(K, q)))))
        for n in ('normalize_time', 'window', 'abs_window'): ex.prove('the %s parameter is kept' % n, at.get(n) is self.par[n])
    def script(self, ex):
        ob = Trace(ex, ex.src('trappy.ftrace', 'GenericFTrace'), self); self.R = registry(ex); self.added = self.parsed = 0; self.pairs = None
        sc = 'all' if ex.choose('all') else 'sched' if ex.choose('sched') else 'thermal' if ex.choose('thermal') else 'custom'
        self.scopes = dict(all=SCOPES, sched=('sched', 'dynamic'), thermal=('thermal', 'dynamic'), custom=())[sc]
        self.evs = ex.fresh(ListS(STR), 'events')
        g = ex.ghosts; g['made'] = Sym(z3.IntVal(0), INT); g['fresh'] = Sym(z3.K(S_I, z3.BoolVal(False)), IB); g['has'] = Sym(z3.K(S_STR, z3.BoolVal(False)), SB); g['table'] = ex.fresh(SI, 'table')
        self.par = dict(normalize_time=ex.fresh(BOOL, 'norm'), window=(ex.fresh(REAL, 'w'), None), abs_window=(ex.fresh(REAL, 'aw'), None))
        try: ex.call(ex.getattr(ob, '__init__'), ['trace'], dict(scope=sc, events=self.evs, **self.par))
        except PyRaise as e:
            ex.prove('fails only on ambiguous keywords (%s)' % e.exc.name, e.exc.name == 'RuntimeError')
            ex.prove('nothing is read before the keywords are checked', self.parsed == 0)
            if self.pairs is None: raise Unsupported('which pair is ambiguous')
            c, F, S, N, iv = self.pairs; X, Y = iv.key(F(c.k)), iv.key(S(c.k))
            ex.prove('it fails only if the keywords of two selected events are ambiguous', z3.And(self.final(X)[0], self.final(Y)[0], X != Y, self.amb(X, Y)))
            return
        ex.prove('the trace is read once', self.parsed == 1 and self.added == 1)
class Trace(PyObj):
    def __init__(self, ex, cls, unit): super().__init__(ex, cls); self.unit = unit
    def py_setattr_sym(self, ex, n, v): self.unit.setattr_(ex, n, v)
IB = Scalar('BY_INSTANCE_B', z3.ArraySort(S_I, B)); SI = Scalar('BY_STRING_I', z3.ArraySort(S_STR, S_I))
class Register(Unit):
    """a class becomes available in its scope under its name; every other entry stays"""
    name = 'register_parser'; functions = (G + '.register_parser', 'trappy.dynamic.register_ftrace_parser'); budget = 60
    def script(self, ex):
        R = registry(ex); K = ex.src('trappy.ftrace', 'GenericFTrace')
        sc = 'all' if ex.choose('all') else 'sched' if ex.choose('sched') else 'thermal'
        c = ex.fresh(C, 'newclass')
        if ex.choose('it has no name'): c = Unnamed(c.t, C)
        if ex.choose('through the module function'): f = ex.src('trappy.dynamic', 'register_ftrace_parser')
        else: f = ex.getattr(K, 'register_parser')
        default = sc == 'all' and f.__class__.__name__ == 'VFunc'
        try: ex.call(f, [c] if default else [c, sc], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        x = ex.fresh(STR, 'anyname').t
        for s in SCOPES:
            d, dom, val = R[s]; now = ex.dict_comps(d, DictS(STR, C)); hit = z3.And(s == ('dynamic' if sc == 'all' else sc), x == cname(c.t))
            ex.prove('the class is registered in its scope under its name, all other entries are kept', z3.And(z3.Select(now[0], x) == z3.Or(hit, z3.Select(dom, x)), z3.Implies(z3.Select(now[0], x), z3.Select(now[1], x) == z3.If(hit, c.t, z3.Select(val, x)))))
class Unregister(Unit):
    """a class disappears from every scope; every other entry stays"""
    name = 'unregister_parser'; functions = (G + '.unregister_parser', 'trappy.dynamic.unregister_ftrace_parser'); budget = 90
    assumes = ('event classes are compared by identity',)
    def setup(self, ex): ex.templates.append(self.inv)
    def inv(self, ctx):
        if ctx.seq is None or ctx.seq.inv is None and ctx.seq.kinv is None: return []
        x = z3.Const('ux', S_STR); iv = ctx.seq.inv or ctx.seq.kinv; out = []
        for l in ctx.labels:
            sh = ctx.info.mod[l]
            if l[0] == 'c' and isinstance(sh, DictS):
                def f(q, l=l):
                    d, v = q.cur(l).cell.comps; d0, v0 = q.entry[l].cell.comps if hasattr(q.entry[l], 'cell') else q.entry[l]
                    return z3.ForAll([x], z3.And(z3.Select(d, x) == z3.And(z3.Select(d0, x), z3.Not(z3.And(iv.pos(x) < q.k, z3.Select(v0, x) == self.c)) if z3.eq(iv.member(x), z3.Select(d0, x)) else True), z3.Select(v, x) == z3.Select(v0, x)), patterns=[z3.Select(d, x), z3.Select(v, x)])
                out.append((('must', 'entries so far', l), f))
        return out
    def script(self, ex):
        R = registry(ex); K = ex.src('trappy.ftrace', 'GenericFTrace'); c = ex.fresh(C, 'oldclass'); self.c = c.t
        f = ex.src('trappy.dynamic', 'unregister_ftrace_parser') if ex.choose('through the module function') else ex.getattr(K, 'unregister_parser')
        try: ex.call(f, [c], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        x = ex.fresh(STR, 'anyname').t
        for s in SCOPES:
            d, dom, val = R[s]; now = ex.dict_comps(d, DictS(STR, C))
            ex.prove('exactly the entries of the class are removed', z3.And(z3.Select(now[0], x) == z3.And(z3.Select(dom, x), z3.Select(val, x) != c.t), z3.Implies(z3.Select(now[0], x), z3.Select(now[1], x) == z3.Select(val, x))))
class Dynamic(Unit):
    """a class made from a name and a keyword is an event class with exactly these, registered in the given scope"""
    name = 'register_dynamic_ftrace'; functions = ('trappy.dynamic.register_dynamic_ftrace', 'trappy.dynamic._get_name'); budget = 60
    assumes = ('DynamicTypeFactory makes a class with the given attributes', 're.sub with the documented semantics')
    def setup(self, ex):
        install_re(ex)
        ex.specs['trappy.dynamic.DynamicTypeFactory'] = self.make; ex.specs[G + '.register_parser'] = self.reg
    def make(self, ex, a, k):
        self.made += 1; d = a[2]; it = dict(d.cell.items) if isinstance(d, VDict) and d.cell.items is not None else {}
        ex.prove('the class is a Base class of the given name', ex.eq(a[0], self.cn) and isinstance(a[1], tuple) and len(a[1]) == 1 and a[1][0] is ex.src('trappy.base', 'Base'))
        ex.prove('it has the given keyword', 'unique_word' in it and ex.eq(it['unique_word'], self.uw))
        ex.prove('its name is the class name in lower case with underscores', 'name' in it and ex.eq(it['name'], ex.call(ex.getattr(do_sub(ex, '(?!^)([A-Z]+)', r'_\1', self.cn), 'lower'), [], {})))
        ex.prove('it reads raw data if requested', 'parse_raw' in it and ex.eq(it['parse_raw'], self.raw))
        ex.prove('it is pivoted by the given column', (('pivot' in it) == bool(self.pivot)) and (not self.pivot or ex.eq(it['pivot'], self.pivot)))
        ex.prove('its instances are made like those of Base', it.get('__init__') is ex.src('trappy.dynamic', 'default_init') and not set(it) - {'__init__', 'unique_word', 'name', 'parse_raw', 'pivot'})
        return self.cls
    def reg(self, ex, a, k):
        self.regs += 1; a = a[1:] if isinstance(a[0], (VClass,)) else a
        sc = a[1] if len(a) > 1 else k.get('scope')
        ex.prove('the new class is registered in the given scope', a[0] is self.cls and ex.eq(sc, self.scope))
    def script(self, ex):
        self.cn, self.uw, self.scope, self.raw = ex.fresh(STR, 'class_name'), ex.fresh(STR, 'keyword'), ex.fresh(STR, 'scope'), ex.fresh(BOOL, 'raw'); self.pivot = ex.fresh(STR, 'pivot') if ex.choose('pivot') else None
        if self.pivot: ex.assume(self.pivot.t != lit(''))
        self.cls = ex.fresh(C, 'made'); self.made = self.regs = 0
        try: r = ex.call(ex.src('trappy.dynamic', 'register_dynamic_ftrace'), [self.cn, self.uw], dict(scope=self.scope, parse_raw=self.raw, pivot=self.pivot))
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the registered class is returned', r is self.cls and self.made == 1 and self.regs == 1)
class Pass(Unit):
    """both kinds of trace pass their parameters on"""
    name = 'FTrace/SysTrace.__init__'; functions = ('trappy.ftrace.FTrace.__init__', 'trappy.systrace.SysTrace.__init__'); budget = 60
    assumes = ('GenericFTrace.__init__ by its contract', 'the number of CPUs found by SysTrace is not part of this property')
    def setup(self, ex):
        ex.specs[G + '.__init__'] = self.init; ex.specs['trappy.ftrace.FTrace.__process_path'] = lambda ex, a, k: Opaque('trace file')
    def init(self, ex, a, k):
        names = ('name', 'normalize_time', 'scope', 'events', 'window', 'abs_window'); d = dict(zip(names, a[1:])); d.update(k)
        for n in names: ex.prove('the %s parameter is passed on' % n, d.get(n) is self.par[n])
        self.n += 1
        if self.android: a[0].attrs['sched_switch'] = NoTable()
    def script(self, ex):
        self.n = 0; self.android = ex.choose('android')
        ob = PyObj(ex, ex.src('trappy.systrace', 'SysTrace') if self.android else ex.src('trappy.ftrace', 'FTrace'))
        self.par = dict(name=ex.fresh(STR, 'name'), normalize_time=ex.fresh(BOOL, 'norm'), scope=ex.fresh(STR, 'scope'), events=ex.fresh(ListS(STR), 'events'), window=(ex.fresh(REAL, 'w'), None), abs_window=(ex.fresh(REAL, 'aw'), None))
        try: ex.call(ex.getattr(ob, '__init__'), [ex.fresh(STR, 'path')], dict(self.par))
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the trace is set up once', self.n == 1)
class NoTable(Ext):
    def py_getattr(self, ex, n): ex.raise_('AttributeError', n)
UNITS = [AddEvents(), Init(), Register(), Unregister(), Dynamic(), Pass()]
