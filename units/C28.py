"""C28: the file that is read, how it is converted, and its header."""
from units.opening import *
F = 'trappy.ftrace.FTrace.'
isfile = z3.Function('is_file', S_STR, B)
class Path(Unit):
    name = '__process_path'; budget = 40; functions = (F + '__process_path',); assumes = ('os.path.isfile, os.path.splitext and os.path.join as functions of their arguments',)
    def setup(self, ex):
        ex.specs['os.path.isfile'] = lambda ex, a, k: Sym(isfile(ex.term(a[0], STR)), BOOL)
        ex.specs['warnings.warn'] = lambda ex, a, k: None
        ex.specs['os.path.splitext'] = lambda ex, a, k: (uf(ex, 'path_stem', [a[0]], STR), uf(ex, 'path_ext', [a[0]], STR))
        ex.specs['os.path.join'] = lambda ex, a, k: uf(ex, 'path_join', list(a), STR)
    def script(self, ex):
        ob = PyObj(ex, ex.src('trappy.ftrace', 'FTrace')); p = ex.fresh(STR, 'path')
        stem = z3.If(isfile(p.t), uf(ex, 'path_stem', [p], STR).t, uf(ex, 'path_join', [p, 'trace'], STR).t)
        T = lambda ext: ex.term(mkcat([Sym(stem, STR), ext]), STR)
        dat, txt = T('.dat'), T('.txt')
        try: r = ex.call(ex.src('trappy.ftrace', 'FTrace.__process_path'), [ob, p], {})
        except PyRaise as e:
            ex.prove('fails only if there is no trace file', z3.Not(z3.Or(isfile(dat), isfile(txt))))
            ex.prove('the failure is an error of the file (%s)' % e.exc.name, e.exc.name in ('OSError', 'IOError', 'FileNotFoundError', 'RuntimeError')); return
        ex.prove('the binary trace is read if there is one, else the text', ex.term(r, STR) == z3.If(isfile(dat), dat, txt))
        ex.prove('the file exists', isfile(ex.term(r, STR)))
        ex.prove('a binary trace is known to be one', tbool(ex.truth(ob.attrs['read_from_dat'])) == isfile(dat))

# ---- events that are asked for unformatted
class EventClass(ExtU):
    def py_getattr(self, ex, n):
        if n == 'parse_raw':
            if not ex.decide(hasraw(self.t)): ex.raise_('AttributeError', n)
            return Sym(israw(self.t), BOOL)
        if n == 'name': return Sym(nameof(self.t), STR)
        return super().py_getattr(ex, n)
EC = U('RawEventClass', EventClass)
hasraw, israw, nameof = z3.Function('has_parse_raw', EC.sort, B), z3.Function('parse_raw', EC.sort, B), z3.Function('event_name', EC.sort, S_STR)
class RawEvents(Unit):
    name = '__get_raw_event_list'; budget = 60; functions = (F + '__get_raw_event_list',); split = 2
    assumes = ('registered classes have a non-empty name (register_ftrace_parser)',)
    def setup(self, ex): ex.templates.append(self.inv)
    def inv(self, ctx):
        if ctx.seq is None: return []
        out = []
        for l in ctx.labels:
            if ctx.info.mod[l] != ListS(STR): continue
            def f(c, l=l):
                    ds = [d for d in range(3) if z3.eq(z3.simplify(c.n), z3.simplify(self.D[d][0]))]
                    if len(ds) != 1: return z3.BoolVal(False)
                    d = ds[0]; n, A = c.cur(l).cell.comps if c.cur(l).cell.items is None else c.ex.pack(c.cur(l), ListS(STR)); j = z3.Int('ij')
                    return z3.And(n == self.off(d, c.k), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(A, j) == self.elem(j)), patterns=[z3.Select(A, j)]))
            out.append((('must', 'the raw events so far', l), f))
        return out
    def script(self, ex):
        ob = PyObj(ex, ex.src('trappy.ftrace', 'FTrace')); k = z3.Int('rk'); c = z3.Const('rc', EC.sort)
        self.cnt = z3.Function('raw_before', I, I, I); self.elem = z3.Function('raw_event', I, S_STR); tot = []; self.D = []
        raw = lambda c: z3.And(hasraw(c), israw(c))
        ex.assume(z3.ForAll([c], nameof(c) != ex.term('', STR), patterns=[nameof(c)]))
        for d, nm in enumerate(('thermal_classes', 'sched_classes', 'dynamic_classes')):
            v = ex.fresh(DictS(STR, EC), nm); ob.attrs[nm] = v; n, keys, _ = ex.enum(v); val = v.cell.comps[1]
            at = lambda i, keys=keys, val=val: z3.Select(val, z3.Select(keys, i)); self.D.append((n, at, v))
            base = z3.Sum([z3.IntVal(0)] + tot) if tot else z3.IntVal(0)
            ex.assume(self.cnt(d, 0) == base)
            ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(self.cnt(d, k + 1) == self.cnt(d, k) + z3.If(raw(at(k)), 1, 0), self.cnt(d, k) >= 0, z3.Implies(raw(at(k)), self.elem(self.cnt(d, k)) == nameof(at(k))))), patterns=[z3.Select(keys, k)]))
            tot.append(self.cnt(d, n) - base)
        self.off = lambda d, k: self.cnt(d, k)
        # the events before a later one stay before it (induction over the class dictionary)
        for d in range(3):
            n = self.D[d][0]; ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= n), z3.And(self.cnt(d, k) >= self.cnt(d, 0), self.cnt(d, k) <= self.cnt(d, n))), patterns=[self.cnt(d, k)]))
        # a filter that keeps the events parsed unformatted keeps them in order: the one at position j of the class
        # dictionary goes where the count says (induction over the dictionary)
        def filtered(r, m, res, T, P, Q):
            if not isinstance(res, VList): return
            j = z3.Int('fj'); q = z3.Int('fq')
            for d, (nd, at, _) in enumerate(self.D):
                if z3.eq(z3.simplify(m), z3.simplify(nd)):
                    same = z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < nd), T(q) == raw(at(q))), patterns=[T(q)])
                    ex.assume(z3.Implies(same, z3.And(res.cell.comps[0] == self.cnt(d, nd) - self.cnt(d, 0), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nd, T(j)), Q(j) == self.cnt(d, j) - self.cnt(d, 0)), patterns=[Q(j)]))))
        ex.on_filter = filtered
        try: ex.call(ex.src('trappy.ftrace', 'FTrace.__get_raw_event_list'), [ob], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        r = ob.attrs['raw_events']
        n, A = r.cell.comps if r.cell.items is None else ex.pack(r, ListS(STR)); j = ex.fresh(INT, 'j').t
        ex.prove('one entry for each event that is parsed unformatted', n == self.cnt(2, self.D[2][0]))
        ex.prove('each entry is the name of its event', z3.Implies(z3.And(0 <= j, j < n), z3.Select(A, j) == self.elem(j)))

class Tmp(Ext):
    def __init__(self, u): self.u = u; self.closed = False
    def py_getattr(self, ex, n):
        if n == '__enter__': return Builtin(n, lambda ex, a, k: self)
        if n == '__exit__': return Builtin(n, lambda ex, a, k: False)
        if n in ('close', 'flush'): return Builtin(n, lambda ex, a, k: None)
        if n == 'write': return Builtin(n, lambda ex, a, k: self.u.wrote.append((self, a[0])))
        if n == 'name': return self.u.tmpname
        raise Unsupported('attribute %s of a temporary file' % n)
class Done(Ext):
    def __init__(self, out): self.out = out
    def py_getattr(self, ex, n):
        if n == 'stdout': return self.out
        if n == 'returncode': return 0
        raise Unsupported('attribute %s of a finished process' % n)
class Convert(Unit):
    name = '__generate_trace_txt'; budget = 60; functions = (F + '__generate_trace_txt',)
    assumes = ('subprocess.run(check=True, capture_output=True) runs the command and returns what it printed, or raises', '__get_raw_event_list by its contract')
    def setup(self, ex):
        ex.specs['os.path.isfile'] = lambda ex, a, k: Sym(isfile(ex.term(a[0], STR)), BOOL)
        ex.specs[F + '__get_raw_event_list'] = self.raws
        ex.specs['subprocess.run'] = self.run
        ex.specs['tempfile.NamedTemporaryFile'] = self.temp
        ex.templates.append(self.inv)
    def raws(self, ex, a, k):
        l = ex.fresh(ListS(STR), 'raw_events'); self.n, self.E = l.cell.comps; a[0].attrs['raw_events'] = l; return None
    def temp(self, ex, a, k):
        if a or set(k) - {'delete', 'suffix', 'prefix'}: raise Unsupported('NamedTemporaryFile')
        ex.prove('the converted text outlives its file object', z3.BoolVal(k.get('delete', True) is False)); self.temps += 1; return Tmp(self)
    def run(self, ex, a, k):
        if len(a) != 1 or not isinstance(a[0], VList): raise Unsupported('run')
        if not (k.get('check') is True and k.get('capture_output') is True and set(k) == {'check', 'capture_output'}): raise Unsupported('run')
        self.runs += 1; L, A = a[0].cell.comps if a[0].cell.items is None else ex.pack(a[0], ListS(STR))
        w = lambda i: z3.Select(A, i); lit_ = lambda s: ex.term(s, STR); q = ex.fresh(INT, 'q').t; ex.assume(z3.And(0 <= q, q < self.n)); j = z3.Int('cj')
        ex.prove('trace-cmd report is run', z3.And(L >= 4, w(0) == lit_('trace-cmd'), w(1) == lit_('report')))
        ex.prove('of the trace', w(L - 1) == self.path.t)
        ex.prove('every raw event is asked for unformatted', z3.Or(*[z3.And(p + 1 < L - 1, p >= 2, w(p) == lit_('-r'), w(p + 1) == z3.Select(self.E, q)) for p in (2 + 2 * q, 3 + 2 * q, L - 1 - 2 * self.n + 2 * q)]))
        ex.prove('nothing else is asked for', L == 4 + 2 * self.n)
        ex.prove('times are asked for in full resolution', z3.Or(w(2) == lit_('-t'), w(L - 2) == lit_('-t')))
        if ex.choose('fails'): raise PyRaise(VExc('OSError', (2, 'x'), dict(errno=ex.fresh(INT, 'errno'), filename=None if ex.choose('no file name') else 'trace-cmd')))
        self.out = ex.fresh(STR, 'printed'); return Done(self.out)
    def inv(self, ctx):
        if ctx.seq is None: return []
        out = []
        for l in ctx.labels:
            if ctx.info.mod[l] != ListS(STR): continue
            def f(c, l=l):
                n, A = c.cur(l).cell.comps if c.cur(l).cell.items is None else c.ex.pack(c.cur(l), ListS(STR)); q = z3.Int('iq'); n0, A0 = c.ex.pack(c.entry[l], ListS(STR)) if c.entry[l].cell.items is not None else c.entry[l].cell.comps
                return z3.And(n == n0 + 2 * c.k, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < c.k), z3.And(z3.Select(A, n0 + 2 * q) == c.ex.term('-r', STR), z3.Select(A, n0 + 1 + 2 * q) == z3.Select(self.E, q))), patterns=[z3.Select(self.E, q)]),
                              *[z3.Select(A, i) == z3.Select(A0, i) for i in range(4)][:n0.as_long() if z3.is_int_value(z3.simplify(n0)) else 0])
            out.append((('must', 'the options so far', l), f))
        return out
    def script(self, ex):
        ob = PyObj(ex, ex.src('trappy.ftrace', 'FTrace')); ob.attrs['raw_events'] = ex.mklist([]); self.path = ex.fresh(STR, 'path'); self.runs = self.temps = 0; self.wrote = []; self.tmpname = ex.fresh(STR, 'tmpname'); self.n = None; self.out = None
        try: r = ex.call(ex.src('trappy.ftrace', 'FTrace.__generate_trace_txt'), [ob, self.path], {})
        except PyRaise as e:
            ex.prove('a failure is an error of the system (%s)' % e.exc.name, e.exc.name in ('OSError', 'IOError', 'FileNotFoundError')); ex.prove('fails only if there is no trace or the conversion fails', z3.Or(z3.Not(isfile(self.path.t)), z3.BoolVal(self.runs > 0))); return
        ex.prove('the trace is converted once', z3.BoolVal(self.runs == 1))
        ex.prove('what was printed is the converted text', z3.BoolVal(len(self.wrote) == 1 and self.temps == 1 and self.wrote[0][1] is self.out))
        ex.prove('the converted file is returned', ex.term(r, STR) == self.tmpname.t)

# ---- the header
HEAD = r'(?P<w>%s)[ \t]*=[ \t]*(?P<n>[0-9]+)(?P<r>|[^0-9\n][^\n]*)(?:|\n)'
class Lines(Handle):
    def __init__(self, path, l): super().__init__(path, 'r'); self.l = l
    def py_iter(self, ex): return ex.seqof(self.l)
    def py_seq(self, ex): return ex.seqof(self.l)
class Header(Unit):
    name = '__get_trace_metadata'; budget = 120; functions = (F + '__get_trace_metadata',)
    assumes = ('the lines of a text file end with a newline, except perhaps the last', 'SPECIAL_FIELDS_RE.match as a function of the line (C03)')
    KEYS = ('version', 'cpus')
    def setup(self, ex):
        install_re(ex); ex.specs['io.open'] = ex.specs['builtins.open'] = self.open; ex.specs['re.search'] = self.search
        ex.templates.append(self.inv)
    def open(self, ex, a, k):
        if (a[1] if len(a) > 1 else k.get('mode', 'r')) != 'r' or k.get('encoding') not in (None, 'utf-8'): raise Unsupported('open')
        ex.prove('the parsed file is read', z3.eq(ex.term(a[0], STR), self.file.t)); return Lines(a[0], self.lines)
    def search(self, ex, a, k):
        pat, s = a[0], ex.force(a[1])
        if not isinstance(pat, str):
            ps = parts_of(pat); keys = None; txt = ''
            for p in ps:
                if isinstance(p, str): txt += p; continue
                j = ex.joins.get(p.get_id())
                if j is None or keys is not None: raise Unsupported('symbolic pattern')
                _, sep, (n, A) = j; w = [ex.term(x, STR) for x in self.KEYS]
                for keys in (self.KEYS, ('version',), ('cpus',), ('cpus', 'version')):
                    if ex.decide(z3.And(n == len(keys), *[z3.Select(A, i) == ex.term(x, STR) for i, x in enumerate(keys)])): break
                else: raise Unsupported('symbolic pattern')
                txt += sep.join(keys)
            pat = txt
        self.used.add(pat); M = Match('search', pat, s); h = has(ex, 'search', pat, s); g1, g2 = M.grp(ex, 1), M.grp(ex, 2)
        ks = [x for x in self.KEYS if x in pat]
        # what the pattern accepts, as proved below for every pattern used
        for x in ks: ex.assume(z3.Implies(self.ish(x, s.t), z3.And(h, ex.term(g1, STR) == ex.term(x, STR), ex.term(g2, STR) == self.num(s.t))))
        ex.assume(z3.Implies(h, z3.Or(*[self.ish(x, s.t) for x in ks])))
        if not ex.decide(h): return None
        return M
    def ish(self, x, s): return z3.Function('is_header_' + x, S_STR, B)(s)
    def num(self, s): return z3.Function('header_value', S_STR, S_STR)(s)
    def inv(self, ctx):
        if ctx.seq is None: return []
        out = []; ex = ctx.ex
        for l in ctx.labels:
            sh = ctx.info.mod[l]
            if sh == ListS(STR):
                def f(c, l=l):
                    v = c.cur(l); n, A = v.cell.comps if v.cell.items is None else ex.pack(v, ListS(STR)); V, C = ex.term('version', STR), ex.term('cpus', STR); gv, gc = self.got['version'](c.k), self.got['cpus'](c.k)
                    return z3.If(gv, z3.If(gc, n == 0, z3.And(n == 1, z3.Select(A, 0) == C)), z3.If(gc, z3.And(n == 1, z3.Select(A, 0) == V), z3.And(n == 2, z3.Select(A, 0) == V, z3.Select(A, 1) == C)))
                out.append((('must', 'the keys still looked for', l), f))
            if isinstance(sh, DictS) and sh.k == STR:
                def g(c, l=l): return self.same(ex, c.cur(l), c.k)
                out.append((('must', 'the header so far', l), g))
        out.append((('must', 'no event line so far'), lambda c: z3.Not(self.stop(c.k))))
        return out
    def same(self, ex, d, k):
        D, V = ex.dict_comps(d, DictS(STR, STR)); x = z3.Const('hx', S_STR); K = {y: ex.term(y, STR) for y in self.KEYS}
        return z3.And(z3.ForAll([x], z3.Select(D, x) == z3.Or(*[z3.And(x == K[y], self.got[y](k)) for y in self.KEYS]), patterns=[z3.Select(D, x)]), *[z3.Implies(self.got[y](k), z3.Select(V, K[y]) == self.val[y](k)) for y in self.KEYS])
    def script(self, ex):
        self.used = set(); ob = PyObj(ex, ex.src('trappy.ftrace', 'FTrace')); self.file = ob.attrs['file_to_parse'] = ex.fresh(STR, 'file')
        self.lines = ex.fresh(ListS(STR), 'lines'); N, L = self.lines.cell.comps; Fn = z3.Function; k = z3.Int('hk'); ex.assume(ex.term('version', STR) != ex.term('cpus', STR))
        self.stop = Fn('event_line_before', I, B); pat = ex.src('trappy.ftrace', 'SPECIAL_FIELDS_RE').pat; at = z3.Select(L, k)
        self.got = {y: Fn('got_' + y, I, B) for y in self.KEYS}; self.val = {y: Fn('value_' + y, I, S_STR) for y in self.KEYS}
        s = z3.Const('hs', S_STR); ex.assume(z3.ForAll([s], z3.Not(z3.And(self.ish('version', s), self.ish('cpus', s))), patterns=[self.ish('version', s)]))
        ex.assume(z3.Not(self.stop(0)))
        for y in self.KEYS:
            ex.assume(z3.Not(self.got[y](0))); new = z3.And(z3.Not(self.stop(k)), z3.Not(self.got[y](k)), self.ish(y, at))
            ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N), z3.And(self.got[y](k + 1) == z3.Or(self.got[y](k), new), self.val[y](k + 1) == z3.If(new, self.num(at), self.val[y](k)))), patterns=[at]))
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N), self.stop(k + 1) == z3.Or(self.stop(k), has(ex, 'match', pat, Sym(at, STR)))), patterns=[at]))
        # later lines change nothing once both keys are known or an event line was seen (induction)
        fin = lambda k: z3.Or(self.stop(k), z3.And(*[self.got[y](k) for y in self.KEYS]))
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= N, fin(k)), z3.And(*[z3.And(self.got[y](N) == self.got[y](k), self.val[y](N) == self.val[y](k)) for y in self.KEYS])), patterns=[self.stop(k)]))
        try: r = ex.call(ex.src('trappy.ftrace', 'FTrace.__get_trace_metadata'), [ob], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        for p in sorted(self.used):
            ks = [x for x in self.KEYS if x in p]
            rxprove(ex, 'a header line is recognised, whatever the blanks around the sign', p, 'search', HEAD % '|'.join(ks), groups={1: 'w', 2: 'n'})
            rxprove(ex, 'only a header line is recognised', p, 'search', r'(?P<s>[^\n]*)(?:|\n)', want='nomatch', forbid={'s': r'^(?:%s)\s*=\s*[0-9]' % '|'.join(ks)})
        if not isinstance(r, VDict): raise Unsupported('metadata')
        ex.prove('the metadata are the first value of each key printed before the first event', self.same(ex, r, N))
        for y in self.KEYS: ex.prove('a key that is not printed is None', z3.BoolVal('_' + y in ob.attrs and ob.attrs['_' + y] is None))
class PopulateMeta(Unit):
    name = '__populate_trace_metadata'; budget = 20; functions = (F + '__populate_trace_metadata',)
    def script(self, ex):
        ob = PyObj(ex, ex.src('trappy.ftrace', 'FTrace')); v, c = ex.fresh(STR, 'version'), ex.fresh(STR, 'cpus')
        if ex.choose('parsed before'): ob.attrs['_version'] = ob.attrs['_cpus'] = None
        ps = ([['version', v]] if ex.choose('version') else []) + ([['cpus', c]] if ex.choose('cpus') else []); d = ex.mkdict([list(p) for p in ps])
        try: ex.call(ex.src('trappy.ftrace', 'FTrace.__populate_trace_metadata'), [ob, d], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the metadata are kept for the cache', z3.BoolVal(ob.attrs.get('metadata') is d))
        for k in ('version', 'cpus'): ex.prove('%s is the printed one, or None' % k, z3.BoolVal('_' + k in ob.attrs and ob.attrs['_' + k] is dict(ps).get(k)))
UNITS = [Path(), RawEvents(), Convert(), Header(), PopulateMeta(), Setup()]
