"""The line loop of the text parser, GenericFTrace.__populate_data, under contract for C01 (which row goes where), C02 (times)
and C03 (decoded prefix). A ghost log indexed by the position in the trace section records every append_data call."""
from pyvc.unit import *
from pyvc.models import *


class TraceClass(ExtU):
    """an event parser instance: what it is given is logged under the current line"""
    def py_getattr(self, ex, n):
        if n == 'append_data': return Builtin(n, lambda ex, a, k: self.append(ex, a, k))
        if n == 'fallback': return Sym(fallback(self.t), BOOL)
        if n == 'unique_word': return Sym(word(self.t), STR)
        if n == 'cached': return Sym(cached(self.t), BOOL)
        return super().py_getattr(ex, n)
    def py_truth(self, ex): return True
    def append(self, ex, a, k):
        names = ('time', 'comm', 'pid', 'cpu', 'line', 'data')
        v = dict(zip(names, a)); v.update(k)
        if set(v) != set(names): ex.raise_('TypeError', 'append_data arguments')
        if len(ex.loops) != 1: raise Unsupported('append_data outside the loop over the lines')
        i = ex.loops[-1].k
        def put(g, t, sh): ex.ghost_set(g, Sym(z3.Store(ex.ghosts[g].t, i, t), sh))
        put('cnt', z3.Select(ex.ghosts['cnt'].t, i) + 1, AI); put('cls', self.t, AC)
        put('time', ex.term(v['time'], REAL), AR); put('comm', ex.term(v['comm'], STR), AS); put('data', ex.term(v['data'], STR), AS)
        put('pid', ex.term(v['pid'], INT), AI); put('cpu', ex.term(v['cpu'], INT), AI); put('line', ex.term(v['line'], INT), AI)
TC = U('TraceClass', TraceClass)
S_TC = TC.sort
fallback = z3.Function('tc_fallback', S_TC, B); word = z3.Function('tc_word', S_TC, S_STR); cached = z3.Function('tc_cached', S_TC, B)
AI = Scalar('LOG_I', z3.ArraySort(I, I)); AR = Scalar('LOG_R', z3.ArraySort(I, R)); AS = Scalar('LOG_S', z3.ArraySort(I, S_STR)); AC = Scalar('LOG_C', z3.ArraySort(I, S_TC))
LOGS = dict(cnt=AI, cls=AC, time=AR, comm=AS, pid=AI, cpu=AI, line=AI, data=AS)

def pattern(ex):
    p = ex.src('trappy.ftrace', 'SPECIAL_FIELDS_RE')
    if not isinstance(p, Pattern): raise Unsupported('SPECIAL_FIELDS_RE')
    return p.pat
class Populate(Unit):
    name = '__populate_data'
    functions = ('trappy.ftrace.GenericFTrace.__populate_data', 'trappy.ftrace.GenericFTrace.trace_hasnt_started', 'trappy.ftrace.GenericFTrace.trace_hasnt_finished')
    budget = 300
    assumes = ('itertools.dropwhile/takewhile: the section starts at the first line for which the first predicate is false and ends before the first for which the second is',
               '__get_trace_class by its contract (proved in C01)', 'SPECIAL_FIELDS_RE.match as a function of the line; the pid, cpu and time groups are number literals (digits by their sub-patterns)')
    pid = ''; cls = ('trappy.ftrace', 'FTrace')
    def __init__(self, pid): self.pid = pid
    def setup(self, ex):
        install_re(ex)
        ex.specs['trappy.ftrace.GenericFTrace.__get_trace_class'] = self.gtc
        mw = [z3.Function('mw%d' % i, R, R) for i in range(3)]
        self.mw = lambda b: [mw[0](b), mw[1](b) > 0, mw[2](b)]      # lower bound, no upper bound, upper bound for a base time
        def calc(ex, a, k):
            lo, none, hi = self.mw(ex.term(a[0].attrs['basetime'], REAL))
            return (Sym(lo, REAL), VOpt(none, [hi], REAL))
        ex.specs['trappy.ftrace.GenericFTrace._calc_max_window'] = calc
        ex.specs['itertools.dropwhile'] = self.drop; ex.specs['itertools.takewhile'] = self.take
        self.nxt = z3.Function('nextafter', R, R); x = z3.Real('nx')
        ex.axioms.append(z3.ForAll([x], self.nxt(x) > x, patterns=[self.nxt(x)]))
        def nextafter(ex, a, k):
            up = isinstance(a[1], ModRef) and a[1].name in ('math.inf', 'numpy.inf') or str(a[1]) == 'inf'
            if not up: raise Unsupported('nextafter direction')
            return Sym(self.nxt(ex.term(a[0], REAL)), REAL)
        ex.specs['numpy.nextafter'] = ex.specs['math.nextafter'] = nextafter
        if self.pid == 'C05': ex.specs['re.sub'] = self.sub
        ex.templates.append(self.inv)
    def gtc(self, ex, a, k):
        line = ex.term(a[1], STR)
        return VOpt(z3.Not(self.hascls(line)), [self.clsof(line)], TC)
    def drop(self, ex, a, k):
        a[0]
        if a[1] is not self.fin: raise Unsupported('dropwhile over something else than the file')
        if self.pid == 'C01':
            x = ex.fresh(STR, 'anyline')
            t = ex.truth(ex.call(a[0], [x], {}))
            ex.prove('the section starts at the first line with the ftrace format', tbool(t) == z3.Not(has(ex, 'match', self.pat, x)))
        return self.fin2
    def take(self, ex, a, k):
        a[0]
        if a[1] is not self.fin2: raise Unsupported('takewhile over something else than the started trace')
        if self.pid == 'C01':
            x = ex.fresh(STR, 'anyline2')
            ex.prove('the section ends with the file', tbool(ex.truth(ex.call(a[0], [x], {}))))
        return self.lines
    def inv(self, ctx):
        ex = ctx.ex; out = []; i, j = z3.Ints('pi pj')
        if ctx.seq is None or ('gh', 'cnt') not in ctx.labels: return []
        G = lambda g: ex.ghosts[g].t
        at = lambda g, x: z3.Select(G(g), x)
        ob = self.ob
        out.append((('must', 'nothing logged for later lines'), lambda c: z3.ForAll([i], z3.Implies(z3.Or(i < 0, i >= c.k), at('cnt', i) == 0), patterns=[at('cnt', i)])))
        rng = lambda c: z3.And(0 <= i, i < c.k)
        row = z3.And(self.F(i), self.hc(i))
        if self.pid == 'C01':
            out.append((('must', 'one row per recognised line'), lambda c: z3.ForAll([i], z3.Implies(rng(c), at('cnt', i) == z3.If(row, 1, 0)), patterns=[at('cnt', i)])))
            out.append((('must', 'the row goes to the selected class'), lambda c: z3.ForAll([i], z3.Implies(z3.And(rng(c), row), at('cls', i) == self.clsof(self.L(i))), patterns=[at('cls', i)])))
            out.append((('must', 'the row has its line number'), lambda c: z3.ForAll([i], z3.Implies(z3.And(rng(c), row), at('line', i) == i), patterns=[at('line', i)])))
        logged = lambda x: at('cnt', x) > 0
        if self.pid == 'C02':
            out.append((('must', 'every logged time is the timestamp of its line'), lambda c: z3.ForAll([i], z3.Implies(z3.And(rng(c), logged(i)), z3.And(self.F(i), at('time', i) == self.ts(i + 1))), patterns=[at('time', i)])))
            for l in ctx.labels:
                if l[0] == 'v' and ctx.info.mod[l] in (REAL, INT): out.append((('timestamp', l), lambda c, l=l: ex.term(c.cur(l), REAL) == self.ts(c.k)))
            al = [l for l in ctx.labels if l[0] == 'a' and l[2] == 'basetime']
            for l in al: out.append((('must', 'base time', l), lambda c, l=l: ex.term(c.cur(l), REAL) == self.bt(c.k)))
        if self.pid == 'C07':
            bl = [l for l in ctx.labels if l[0] == 'a' and l[2] == 'basetime']; ml = [l for l in ctx.labels if l[0] == 'a' and l[2] == 'max_window']
            for l in [l for l in ctx.labels if l[0] == 'v' and ctx.info.mod[l] in (REAL, INT)]: out.append((('timestamp', l), lambda c, l=l: ex.term(c.cur(l), REAL) >= 0))
            if bl and ml: out.append((('must', 'window of the base time'), lambda c: z3.And(ex.term(c.cur(bl[0]), REAL) >= 0, z3.Or(ex.term(c.cur(bl[0]), REAL) == 0, self.window_is(ex, c.cur(ml[0]), ex.term(c.cur(bl[0]), REAL))))))
        if self.pid == 'C03':
            pat = self.pat
            def f(g, rhs): out.append((('must', g), lambda c: z3.ForAll([i], z3.Implies(z3.And(rng(c), logged(i)), rhs(i)), patterns=[at(g, i)])))
            f('comm', lambda i: at('comm', i) == self.g('comm', i)); f('pid', lambda i: at('pid', i) == uf(ex, 'str_int', [Sym(self.g('pid', i), STR), None], INT).t)
            f('cpu', lambda i: at('cpu', i) == uf(ex, 'str_int', [Sym(self.g('cpu', i), STR), None], INT).t)
            f('data', lambda i: z3.Implies(z3.Not(tbool(ex.contains(Sym(self.g('data', i), STR), '={}'))), at('data', i) == self.g('data', i)))
        if self.pid == 'C05':
            out.append((('must', 'payload'), lambda c: z3.ForAll([i], z3.Implies(z3.And(rng(c), logged(i)), at('data', i) == self.clean(self.g('data', i))), patterns=[at('data', i)])))
        return out
    def window_is(self, ex, w, b):
        lo, none, hi = self.mw(b); g = ex.force(w) if not isinstance(w, tuple) else w
        if not isinstance(g, tuple) or len(g) != 2: return z3.BoolVal(False)
        h = g[1]
        return z3.And(ex.term(g[0], REAL) == lo, tbool(ex.isnone(h)) == none, z3.Or(none, (h.comps[0] if isinstance(h, VOpt) else z3.RealVal(0) if h is None else ex.term(h, REAL)) == hi))
    def sub(self, ex, a, k):
        """re.sub on a payload: it removes exactly the empty array fields"""
        p = a[0].pat if isinstance(a[0], Pattern) else a[0]
        s = ex.force(a[2])
        if not isinstance(p, str) or not isinstance(s, Sym) or len(a) > 3 or k: raise Unsupported('substitution')
        fld = '(?P<pre>(?:[^\\n]* )?)(?P<fld>[A-Za-z0-9_]+=\\{\\}%s)%s'; no = dict(pre='=\\{\\}')
        rxprove(ex, 'the first empty array field and the space after it are found', '(' + p + ')', 'search', fld % (' ', '(?P<post>[^\\n]*)'), groups={1: 'fld'}, forbid=no)
        rxprove(ex, 'an empty array field at the end is found', '(' + p + ')', 'search', fld % ('', ''), groups={1: 'fld'}, forbid=no)
        rxprove(ex, 'nothing else is removed', p, 'search', '(?P<s>[^\\n]*)', want='nomatch', forbid=dict(s='=\\{\\}'))
        ex.prove('it is removed without replacement', isinstance(a[1], str) and a[1] == '')
        return Sym(self.clean(s.t), STR)
    def script(self, ex):
        cls = ex.src(*self.cls); self.ob = ob = PyObj(ex, cls)
        self.pat = pat = pattern(ex)
        self.fin, self.fin2 = Opaque('fin'), Opaque('started')
        self.lines = ex.fresh(ListS(STR), 'section'); self.N, A = self.lines.cell.comps
        self.hascls, self.clsof = z3.Function('has_class', S_STR, B), z3.Function('class_of', S_STR, S_TC)
        self.L = lambda i: z3.Select(A, i)
        st = lambda i: uf(ex, 'str_rstrip', [Sym(self.L(i), STR)], STR)
        self.F = lambda i: has(ex, 'match', pat, st(i))
        self.hc = lambda i: self.hascls(self.L(i))
        def g(n, i):
            v = Match('match', pat, st(i)).grp(ex, n)
            return v.t if isinstance(v, Sym) else v.comps[0]
        self.g = g
        i, j = z3.Ints('si sj'); x = z3.Const('sx', S_STR)
        xs = Sym(x, STR)
        if self.pid == 'C05':
            self.clean = z3.Function('without_empty_arrays', S_STR, S_STR)
            ex.assume(z3.ForAll([x], z3.Implies(z3.Not(tbool(ex.contains(xs, '={}'))), self.clean(x) == x), patterns=[self.clean(x)]))
        for n in ('pid', 'cpu'):
            t = Match('match', pat, xs).grp(ex, n)
            ex.assume(z3.ForAll([x], uf(ex, 'str_isint', [t, None], BOOL).t, patterns=[uf(ex, 'str_isint', [t, None], BOOL).t]))
        t = Match('match', pat, xs).grp(ex, 'timestamp')
        ex.assume(z3.ForAll([x], uf(ex, 'str_isfloat', [t], BOOL).t, patterns=[uf(ex, 'str_isfloat', [t], BOOL).t]))
        # printed time of line i, and the timestamp after i lines
        us = Match('match', pat, st(i)).grp(ex, 'us'); fl = uf(ex, 'str_float', [Sym(g('timestamp', i), STR)], REAL).t
        nous = z3.Or(us.isnone, us.comps[0] == lit('')) if isinstance(us, VOpt) else us.t == lit('')
        printed = z3.If(nous, fl / 1000000000, fl)
        self.ts, self.bt = z3.Function('timestamp', I, R), z3.Function('basetime', I, R)
        ts, bt, F = self.ts, self.bt, self.F
        if self.pid == 'C02':
            ex.assume(z3.And(ts(0) == 0, bt(0) == 0))
            ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.N), z3.And(printed >= 0, ts(i + 1) == z3.If(F(i), z3.If(printed > ts(i), printed, self.nxt(ts(i))), ts(i)), bt(i + 1) == z3.If(z3.And(F(i), bt(i) == 0), ts(i + 1), bt(i)))), patterns=[self.L(i)]))
        ob.attrs.update(lines=0, basetime=0, endtime=0, max_window=(0, None), window=(0, None), abs_window=(0, None))
        for g_, sh in LOGS.items(): ex.ghosts[g_] = Sym(z3.K(I, z3.IntVal(0)) if g_ == 'cnt' else z3.Const('log_' + g_, sh.sort), sh)
        m = ex.src('trappy.ftrace', 'GenericFTrace.__populate_data')
        try: ex.call(m, [ob, self.fin, Opaque('cls_for_unique_word')], {})
        except PyRaise as e: ex.prove('parsing does not fail (%s)' % e.exc.name, False); return
        at = lambda n, x: z3.Select(ex.ghosts[n].t, x)
        q, p = ex.fresh(INT, 'q').t, ex.fresh(INT, 'p').t
        ex.assume(z3.And(0 <= q, q < self.N)); row = z3.And(F(q), self.hc(q))
        if self.pid == 'C01':
            ex.prove('every recognised line adds one row, other lines add none', at('cnt', q) == z3.If(row, 1, 0))
            ex.prove('no other row is added', z3.Implies(z3.Or(p < 0, p >= self.N), at('cnt', p) == 0))
            ex.prove('the row is added to the class selected for the line', z3.Implies(row, at('cls', q) == self.clsof(self.L(q))))
            ex.prove("the row's line number is the number of lines before it", z3.Implies(row, at('line', q) == q))
        if self.pid == 'C02':
            ex.prove('a row is time-stamped with the timestamp of its line', z3.Implies(at('cnt', q) > 0, z3.And(F(q), at('time', q) == ts(q + 1))))
            ex.prove('the end time is the timestamp of the last event line', ex.term(ob.attrs['endtime'], REAL) == ts(self.N))
            ex.prove('the base time is the timestamp of the first event line', ex.term(ob.attrs['basetime'], REAL) == bt(self.N))
        if self.pid == 'C07':
            b = ex.term(ob.attrs['basetime'], REAL)
            ex.prove('the window in force is that of the final base time', z3.Or(b == 0, self.window_is(ex, ob.attrs['max_window'], b)))
        if self.pid == 'C05':
            ex.prove('the recorded payload is the printed one without its empty array fields', z3.Implies(at('cnt', q) > 0, at('data', q) == self.clean(g('data', q))))
        if self.pid == 'C03':
            on = at('cnt', q) > 0
            I_ = lambda n: uf(ex, 'str_int', [Sym(self.g(n, q), STR), None], INT).t
            ex.prove('task name', z3.Implies(on, at('comm', q) == self.g('comm', q)))
            ex.prove('process id', z3.Implies(on, at('pid', q) == I_('pid')))
            ex.prove('CPU', z3.Implies(on, at('cpu', q) == I_('cpu')))
            ex.prove('payload', z3.Implies(z3.And(on, z3.Not(tbool(ex.contains(Sym(self.g('data', q), STR), '={}')))), at('data', q) == self.g('data', q)))

class Timeline(Unit):
    """the timestamp recurrence gives unique, increasing and faithful times (induction over the lines)"""
    name = 'timestamps'; functions = (); budget = 60
    def script(self, ex):
        ts = z3.Function('ts', I, R); pr = z3.Function('printed', I, R); nx = z3.Function('nextafter', R, R); F = z3.Function('is_event', I, B)
        i, j, k = z3.Ints('i j k'); x = z3.Real('x')
        ex.assume(ts(0) == 0)
        ex.assume(z3.ForAll([x], nx(x) > x, patterns=[nx(x)]))
        ex.assume(z3.ForAll([i], z3.Implies(i >= 0, z3.And(pr(i) >= 0, ts(i + 1) == z3.If(F(i), z3.If(pr(i) > ts(i), pr(i), nx(ts(i))), ts(i)))), patterns=[ts(i), F(i)]))
        K = ex.fresh(INT, 'K').t; a = ex.fresh(INT, 'a').t; ex.assume(z3.And(K >= 0, 0 <= a))
        # induction on K: the timestamp after K lines bounds every timestamp before
        P = lambda K: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= K), ts(i) <= ts(K)), patterns=[ts(i)])
        ex.prove('base: timestamps do not decrease', P(z3.IntVal(0)))
        t1 = ts(K + 1)
        ex.prove('step: timestamps do not decrease', z3.Implies(P(K), z3.And(ts(K) <= ts(K + 1), P(K + 1))))
        ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j), ts(i) <= ts(j)), patterns=[z3.MultiPattern(ts(i), ts(j))]))
        b = ex.fresh(INT, 'b').t; ex.assume(z3.And(a < b, F(a), F(b)))
        ex.prove('times of two event lines increase in file order', z3.Implies(z3.And(ts(a + 1) <= ts(b)), ts(a + 1) < ts(b + 1)))
        ex.prove('a later event comes later', ts(a + 1) < ts(b + 1))
        c = ex.fresh(INT, 'c').t
        ex.assume(c >= 0); ex.assume(F(c))
        ex.prove('a printed time larger than all earlier timestamps is kept', z3.Implies(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= c), pr(c) > ts(i)), patterns=[ts(i)]), ts(c + 1) == pr(c)))
        ex.prove('any other event gets the next number after the previous timestamp', z3.Implies(z3.Exists([i], z3.And(0 <= i, i <= c, pr(c) <= ts(i))), ts(c + 1) == nx(ts(c))))
