"""C23: Android systrace files: only the trace section is read, user-space markers are decoded."""
from units.opening import *
from units.populate import Populate, pattern

BEGIN = ('<!-- BEGIN TRACE -->', '<title>Android System Trace</title>')
DATA = ('  <script class="trace-data"', '  var linuxPerfData')
CLOSE = '</script>\n'
class Start(Unit):
    """the section start is a finite automaton; its reachable states are enumerated and simulated against the stated one:
    phase 0 before the begin marker, 1 before the data section, 2 inside it"""
    name = 'section start'; budget = 60
    functions = ('trappy.systrace.drop_before_trace.__init__', 'trappy.systrace.drop_before_trace.__call__', 'trappy.systrace.SysTrace.trace_hasnt_started', 'trappy.ftrace.GenericFTrace.trace_hasnt_started')
    assumes = ('SPECIAL_FIELDS_RE.match as a function of the line (what it accepts: C03)',)
    def setup(self, ex):
        install_re(ex)
        sub = lambda: Exec('states', ex.backend, repo=ex.repo, lib=dict(lib))
        self.states = []; todo = []
        def record(st):
            if st not in self.states: self.states.append(st); todo.append(st)
        e = sub(); install_re(e)
        e.run(lambda ex: record((self.attrs(self.make(ex)), 0)), 30)
        if e.errors: ex.errors.extend(e.errors); return
        while todo:
            st = todo.pop(); out = []
            e = sub(); install_re(e)
            e.run(lambda ex: out.append(self.step(ex, st)[:2]), 30)
            if e.errors: ex.errors.extend(e.errors); return
            for s in out: record(s)
            if len(self.states) > 12: raise Unsupported('too many states')
    def attrs(self, f):
        vals = []
        for k, v in sorted(f.attrs.items()):
            if isinstance(v, (bool, int, str)) or v is None: vals.append((k, v))
            elif not isinstance(v, PyObj): raise Unsupported('state %s = %r' % (k, v))
        return tuple(vals)
    def make(self, ex):
        self.ob = PyObj(ex, ex.src('trappy.systrace', 'SysTrace'))
        f = ex.call(ex.getattr(self.ob, 'trace_hasnt_started'), [], {})
        if not isinstance(f, PyObj): raise Unsupported('the start predicate is no object')
        return f
    def step(self, ex, st):
        """one call in state st: (attributes, phase) afterwards, the result, the line"""
        f = self.make(ex); f.attrs.update(dict(st[0])); ph = st[1]
        line = ex.fresh(STR, 'line')
        sw = lambda ps: ex.decide(tbool(ex.Or(*[self.starts(ex, line, p) for p in ps])))
        if ph == 0 and sw(BEGIN): ph = 1
        elif ph == 1 and sw(DATA): ph = 2
        r = ex.call(f, [line], {})
        return self.attrs(f), ph, r, line
    def starts(self, ex, s, p): return ex.truth(ex.call(ex.getattr(s, 'startswith'), [p], {}))
    def script(self, ex):
        i = 0
        while i < len(self.states) - 1 and ex.choose('not state %d' % i): i += 1
        try: at, ph, r, line = self.step(ex, self.states[i])
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the automaton moves as stated', (at, ph) in self.states)
        pat = ex.src('trappy.ftrace', 'SPECIAL_FIELDS_RE').pat
        ex.prove('lines are skipped exactly until the first event line of the data section', tbool(ex.truth(r)) == (z3.BoolVal(True) if ph < 2 else z3.Not(has(ex, 'match', pat, line))))
class End(Unit):
    name = 'section end'; functions = ('trappy.systrace.SysTrace.trace_hasnt_finished',); budget = 30
    def script(self, ex):
        ob = PyObj(ex, ex.src('trappy.systrace', 'SysTrace')); line = ex.fresh(STR, 'line')
        try: r = ex.call(ex.call(ex.getattr(ob, 'trace_hasnt_finished'), [], {}), [line], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ends = ex.truth(ex.call(ex.getattr(line, 'endswith'), [CLOSE], {}))
        ex.prove('the section ends at the first line that ends with a closing script tag', tbool(ex.truth(r)) == z3.Not(tbool(ends)))
class Section(Populate):
    """rows come from the lines between the start and the end of the section only"""
    name = '__populate_data (SysTrace)'; functions = ('trappy.ftrace.GenericFTrace.__populate_data',); budget = 120
    def __init__(self): super().__init__('C01'); self.cls = ('trappy.systrace', 'SysTrace')
    def setup(self, ex):
        super().setup(ex); self.START, self.END = Opaque('start predicate'), Opaque('end predicate')
        ex.specs['trappy.systrace.SysTrace.trace_hasnt_started'] = lambda ex, a, k: self.START
        ex.specs['trappy.systrace.SysTrace.trace_hasnt_finished'] = lambda ex, a, k: self.END
    def drop(self, ex, a, k):
        ex.prove('the file is skipped up to the section start', a[1] is self.fin and a[0] is self.START); return self.fin2
    def take(self, ex, a, k):
        ex.prove('reading stops at the section end', a[1] is self.fin2 and a[0] is self.END); return self.lines
E = '(?P<e>[A-Z])'
class Marker(Unit):
    """user-space marker payloads"""
    name = 'SysTrace.generate_data_dict'; functions = ('trappy.systrace.SysTrace.generate_data_dict',); budget = 60
    assumes = ('the regular expression matcher has the documented semantics; a group of decimal digits is an integer literal',)
    def setup(self, ex): install_re(ex)
    def script(self, ex):
        pat = ex.src('trappy.systrace', 'SYSTRACE_EVENT')
        if not isinstance(pat, Pattern): raise Unsupported('pattern')
        import re
        G = re.compile(pat.pat).groupindex
        if set(G) != {'event', 'pid', 'func', 'data'}: raise Unsupported('groups of the pattern')
        P_, F_, D_ = r'\|(?P<p>\d+)', r'\|(?P<f>[^|\n]*)', r'\|(?P<d>[^\n]*)'
        full = {G['event']: 'e', G['pid']: 'p', G['func']: 'f', G['data']: 'd'}
        for n, spec, gs in ((1, E, ['event']), (2, E + P_, ['event', 'pid']), (3, E + P_ + F_, ['event', 'pid', 'func']), (4, E + P_ + F_ + D_, ['event', 'pid', 'func', 'data'])):
            rxprove(ex, 'a marker with %d part%s is recognised and split at its bars' % (n, 's' if n > 1 else ''), pat, 'match', spec, groups={G[g]: full[G[g]] for g in gs})
        for what, spec in (('no capital letter first', r'(?:[^A-Z\n][^\n]*)?'), ('a longer word first', r'[A-Z][^|\n][^\n]*'), ('no number after the bar', r'[A-Z]\|(?:[^\d\n][^\n]*)?'), ('text after the number', r'[A-Z]\|\d+[^\d|\n][^\n]*')):
            rxprove(ex, 'a payload with %s is no such marker' % what, pat, 'match', '(?P<s>%s)' % spec, want='nomatch')
        ob = PyObj(ex, ex.src('trappy.systrace', 'SysTrace')); s = ex.fresh(STR, 'payload')
        M = Match('match', pat.pat, s); ok = has(ex, 'match', pat.pat, s); pid = M.grp(ex, 'pid')
        ex.assume(z3.Implies(ok, uf(ex, 'str_isint', [Sym(pid.comps[0], STR), None], BOOL).t))
        ex.assume(z3.Implies(z3.And(ok, z3.Not(pid.isnone)), pid.comps[0] != lit('')))
        try: d = ex.call(ex.getattr(ob, 'generate_data_dict'), [s], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        if ex.decide(z3.Not(ok)): ex.prove('any other payload is not decoded', tbool(ex.isnone(d)) if not isinstance(d, VDict) else False); return
        if not isinstance(d, VDict) or d.cell.items is None: ex.prove('a marker is decoded', False); return
        it = dict((k, v) for k, v in d.cell.items)
        ex.prove('exactly the four parts', set(it) == {'event', 'pid', 'func', 'data'})
        if set(it) != {'event', 'pid', 'func', 'data'}: return
        ex.prove('the event letter is decoded', ex.eq(it['event'], M.grp(ex, 'event')))
        same = lambda v, w, f: tbool(ex.Or(ex.And(w.isnone, ex.isnone(v)), ex.And(z3.Not(w.isnone), z3.Not(tbool(ex.isnone(v))), f(v))))
        unopt = lambda v: v.comps[0] if isinstance(v, VOpt) else v.t if isinstance(v, Sym) else None
        def iseq(v, t): return False if v is None else unopt(v) == t
        num = uf(ex, 'str_int', [Sym(pid.comps[0], STR), None], INT).t
        ex.prove('the process id is the printed number, missing if not printed', same(it['pid'], pid, lambda v: iseq(v, num)))
        for n in ('func', 'data'):
            w = M.grp(ex, n); ex.prove('the %s part is the printed text, missing if not printed' % n, same(it[n], w, lambda v: iseq(v, w.comps[0])))
class TracerExt(Ext):
    def __init__(self, u): self.u = u
    def py_getattr(self, ex, n):
        if n == 'generate_data_dict': return Builtin(n, lambda ex, a, k: self.u.tracer(ex, a))
        return super().py_getattr(ex, n)
class Fallback(Unit):
    """a marker is decoded by the trace, any other payload is kept verbatim"""
    name = 'FallbackEvent.generate_data_dict'; functions = ('trappy.fallback.FallbackEvent.generate_data_dict', 'trappy.bare_trace.BareTrace.generate_data_dict'); budget = 30
    def tracer(self, ex, a):
        ex.prove('the trace is given the payload', ex.eq(a[0], self.s)); self.asked += 1
        return self.dec if ex.choose('marker') else None
    def script(self, ex):
        ob = PyObj(ex, ex.src('trappy.fallback', 'TracingMarkWrite')); self.s = s = ex.fresh(STR, 'payload'); self.asked = 0
        self.dec = ex.mkdict([['event', 'B']]); kind = 'none' if ex.choose('no trace') else 'text' if ex.choose('text trace') else 'android'
        ob.attrs['tracer'] = None if kind == 'none' else PyObj(ex, ex.src('trappy.ftrace', 'FTrace')) if kind == 'text' else TracerExt(self)
        try: d = ex.call(ex.getattr(ob, 'generate_data_dict'), [s], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        if kind == 'android' and d is self.dec: ex.prove('a marker is decoded by the trace', self.asked >= 1); return
        ok = isinstance(d, VDict) and d.cell.items is not None and [k for k, v in d.cell.items] == ['string']
        ex.prove('any other payload is kept verbatim', ok and ex.eq(d.cell.items[0][1], s))
        if kind == 'android': ex.prove('the trace is asked first', self.asked >= 1)
UNITS = [Start(), End(), Section(), Marker(), Fallback()]
