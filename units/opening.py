"""Opening a trace under contract: which steps are made in which order (C07, C08, C09, C10), windows, normalization and the cache.
An event parser is an opaque object; whether it came from the cache and what its table holds are ghost arrays over the parsers."""
from pyvc.unit import *
from pyvc.models import *
from pyvc.frames import *

S_DATA = sort('EventData')
class Parser(ExtU):
    """an event parser instance of a trace"""
    def py_getattr(self, ex, n):
        if n == 'cached': return ex.mkbool(z3.Select(ex.ghosts['cached'].t, self.t))
        if n == 'unique_word': return Sym(p_word(self.t), STR)
        if n == '__class__': return ParserClass(self.t)
        if n == 'data_frame' and hasattr(ex, 'parser_frames'): return ex.parser_frames(ex, self.t)
        h = getattr(ex, 'parser_methods', {}).get(n)
        if h: return Builtin(n, lambda ex, a, k: h(ex, self.t, a, k))
        return super().py_getattr(ex, n)
    def py_setattr(self, ex, n, v):
        if n == 'cached': ex.ghost_set('cached', Sym(z3.Store(ex.ghosts['cached'].t, self.t, tbool(ex.truth(v))), AB)); return
        if n == 'tracer': return
        super().py_setattr(ex, n, v)
    def py_truth(self, ex): return True
class ParserClass(Ext):
    def __init__(self, t): self.p = t
    def py_getattr(self, ex, n):
        if n == '__name__': return Sym(p_class(self.p), STR)
        return super().py_getattr(ex, n)
P = U('Parser', Parser); S_P = P.sort
p_word, p_class = z3.Function('parser_word', S_P, S_STR), z3.Function('parser_class_name', S_P, S_STR)
AB = Scalar('BY_PARSER_B', z3.ArraySort(S_P, B)); AN = Scalar('BY_PARSER_I', z3.ArraySort(S_P, I)); AD = Scalar('BY_PARSER_D', z3.ArraySort(S_P, S_DATA))

def parsers(ex):
    """the distinct event parsers of a trace: (list, their number, parser at, position of, member)"""
    l = ex.fresh(ListS(P), 'trace_classes'); n, A = l.cell.comps
    pos = z3.Function('parser_pos', S_P, I); i = z3.Int('pi'); c = z3.Const('pc', S_P)
    mem = lambda c: z3.And(0 <= pos(c), pos(c) < n, z3.Select(A, pos(c)) == c)
    ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), pos(z3.Select(A, i)) == i), patterns=[z3.Select(A, i)]))
    l.cell.inv = (list(l.cell.comps), Inverse(lambda j: z3.Select(A, j), pos, mem))
    return l, n, (lambda i: z3.Select(A, i)), pos, mem
def trace_ob(ex, cls='FTrace', mod='trappy.ftrace'):
    """a trace object with arbitrary parameters"""
    ob = PyObj(ex, ex.src(mod, cls)); o = lambda n: ex.fresh(OptS(REAL), n)
    ob.attrs.update(name='', normalized_time=False, basetime=ex.fresh(REAL, 'a_basetime'), endtime=ex.fresh(REAL, 'a_endtime'), trace_path=ex.fresh(STR, 'a_path'),
                    window=(ex.fresh(REAL, 'a_w0'), o('a_w1')), abs_window=(ex.fresh(REAL, 'a_a0'), o('a_a1')), max_window=(0, None), normalize_time=ex.fresh(BOOL, 'a_norm'))
    return ob
def getg(ex, g): return ex.ghosts[g].t

class Window(Ext):
    """the result of _calc_max_window for a base time (only passed on)"""
    def __init__(self, base): self.base = base
class CalcMax(Unit):
    """the intersection of both windows, in absolute times"""
    name = '_calc_max_window'; functions = ('trappy.ftrace.GenericFTrace._calc_max_window',); budget = 60
    assumes = ('window bounds and times are numbers, treated as reals',)
    def script(self, ex):
        ob = trace_ob(ex)
        w0, a0, b = (ex.fresh(REAL, n) for n in ('w0', 'a0', 'base'))
        w1, a1 = ex.fresh(OptS(REAL), 'w1'), ex.fresh(OptS(REAL), 'a1')
        ob.attrs.update(window=(w0, w1), abs_window=(a0, a1), basetime=b)
        try: r = ex.call(ex.getattr(ob, '_calc_max_window'), [], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        lo, hi = ex.getitem(r, 0), ex.getitem(r, 1)
        lo = ex.term(lo, REAL)
        ex.prove('lower bound: both lower bounds hold', z3.And(lo >= w0.t + b.t, lo >= a0.t))
        ex.prove('lower bound: not above both', z3.Or(lo == w0.t + b.t, lo == a0.t))
        none = tbool(ex.isnone(hi))
        ex.prove('no upper bound exactly if neither window has one', none == z3.And(w1.isnone, a1.isnone))
        h = hi.comps[0] if isinstance(hi, VOpt) else z3.RealVal(0) if hi is None else ex.term(hi, REAL)
        W, A = w1.comps[0] + b.t, a1.comps[0]
        ex.prove('upper bound: both upper bounds hold', z3.Implies(z3.Not(none), z3.And(z3.Or(w1.isnone, h <= W), z3.Or(a1.isnone, h <= A))))
        ex.prove('upper bound: one of them', z3.Implies(z3.Not(none), z3.Or(z3.And(z3.Not(w1.isnone), h == W), z3.And(z3.Not(a1.isnone), h == A))))
class OneTable(Ext):
    """an event parser with its table; the table may be replaced"""
    def __init__(self, fr): self.fr = fr
    def py_getattr(self, ex, n):
        if n == 'data_frame': return self.fr
        return super().py_getattr(ex, n)
    def py_setattr(self, ex, n, v):
        if n != 'data_frame': return super().py_setattr(ex, n, v)
        if not isinstance(v, Frame): raise Unsupported('table replaced by %r' % (v,))
        self.fr = v
class Windowify(Unit):
    """a table keeps exactly the rows inside the window"""
    name = '_windowify_class'; functions = ('trappy.ftrace.GenericFTrace._windowify_class',); budget = 60
    assumes = ('pandas label slices of a table sorted by time include both bounds; sort_index leaves a sorted table alone', 'event tables are sorted by time (C02) and times are not negative')
    def script(self, ex):
        from .tables import table
        ob = trace_ob(ex)
        t = table(ex); i = z3.Int('wi')
        ex.assume(z3.ForAll([i], t.tm(i) >= 0, patterns=[t.tm(i)]))
        fr = Frame(ex, t); e = OneTable(fr)
        lo, hi = ex.fresh(REAL, 'lo'), ex.fresh(OptS(REAL), 'hi')
        try: ex.call(ex.getattr(ob, '_windowify_class'), [e, ex.mklist([lo, hi])], {})
        except PyRaise as x: ex.prove('never fails (%s)' % x.exc.name, False); return
        q = ex.fresh(INT, 'q').t
        inside = z3.And(0 <= q, q < t.n, t.tm(q) >= lo.t, z3.Or(hi.isnone, t.tm(q) <= hi.comps[0]))
        ex.prove('the table keeps exactly the rows inside the window', e.fr.view.sel(q) == inside)
        ex.prove('all columns are kept', e.fr.cols is None)
class ApplyUser(Unit):
    """every table is windowed exactly once by the current window, then (only if requested) all are normalized"""
    name = '_apply_user_parameters'; functions = ('trappy.ftrace.GenericFTrace._apply_user_parameters',); budget = 60
    assumes = ('_windowify_class and _normalize_time by their contracts',)
    def __init__(self, pid): self.pid = pid
    def setup(self, ex):
        G = 'trappy.ftrace.GenericFTrace.'
        ex.specs[G + '_windowify_class'] = self.win; ex.specs['trappy.bare_trace.BareTrace._normalize_time'] = self.norm
        ex.templates.append(self.inv)
    def win(self, ex, a, k):
        c = ex.term(a[1], P)
        if self.pid == 'C07':
            ex.prove('the window applied is the current one', a[2] is self.W)
            ex.prove('windows are applied before normalization', z3.Not(getg(ex, 'normalized') > 0))
        n = getg(ex, 'windowed'); ex.ghost_set('windowed', Sym(z3.Store(n, c, z3.Select(n, c) + 1), AN))
    def norm(self, ex, a, k):
        if len(a) > 1 or k: raise Unsupported('_normalize_time with a base time')
        ex.ghost_set('normalized', Sym(getg(ex, 'normalized') + 1, INT))
    def inv(self, ctx):
        if ctx.seq is None or ('gh', 'windowed') not in ctx.labels or ctx.seq.inv is None: return []
        c = z3.Const('ic', S_P); g = lambda: getg(ctx.ex, 'windowed')
        return [(('must', 'the tables before are windowed once'), lambda x: z3.ForAll([c], z3.Select(g(), c) == z3.If(z3.And(self.mem(c), self.pos(c) < x.k), 1, 0), patterns=[z3.Select(g(), c)]))]
    def script(self, ex):
        ob = trace_ob(ex)
        l, n, at, self.pos, self.mem = parsers(ex); self.W = Window(None)
        want = ex.fresh(BOOL, 'normalize')
        ob.attrs.update(trace_classes=l, max_window=self.W, normalize_time=want)
        ex.ghosts['windowed'] = Sym(z3.K(S_P, z3.IntVal(0)), AN); ex.ghosts['normalized'] = Sym(z3.IntVal(0), INT)
        ex.ghosts['cached'] = ex.fresh(AB, 'cached')
        try: ex.call(ex.getattr(ob, '_apply_user_parameters'), [], {})
        except PyRaise as x: ex.prove('never fails (%s)' % x.exc.name, False); return
        c = ex.fresh(P, 'anyparser').t
        if self.pid == 'C07': ex.prove('every table is windowed exactly once, nothing else is', z3.Select(getg(ex, 'windowed'), c) == z3.If(self.mem(c), 1, 0))
        if self.pid == 'C08': ex.prove('tables are normalized once if requested and not otherwise', getg(ex, 'normalized') == z3.If(want.t, 1, 0))
class DoParse(Unit):
    """the steps of opening a trace and their order"""
    name = '_do_parse'; functions = ('trappy.ftrace.GenericFTrace._do_parse',); budget = 60
    assumes = ('_load_cache, __parse_trace_file, finalize_objects, _update_cache and _apply_user_parameters by their contracts (each proved in its own unit)',)
    def __init__(self, pid): self.pid = pid
    def setup(self, ex):
        G = 'trappy.ftrace.GenericFTrace.'; S = ex.specs
        for n in ('_load_cache', '_parsing_setup', '__parse_trace_file', '_update_cache', '_apply_user_parameters', '_parsing_teardown'): S[G + n] = self.step(n)
        for n in ('_parsing_setup', '_parsing_teardown'): S['trappy.ftrace.FTrace.' + n] = self.step(n)
        S['trappy.bare_trace.BareTrace.finalize_objects'] = self.step('finalize_objects')
        ex.templates.append(self.inv)
    def inv(self, ctx):
        if ctx.seq is None or ctx.seq.inv is None: return []
        c = z3.Const('ic', S_P); full = lambda x: z3.ForAll([c], z3.Implies(z3.And(self.mem(c), self.pos(c) < x.k), z3.Select(getg(x.ex, 'cached'), c)), patterns=[self.pos(c)])
        out = [(('the events so far are cached',), full)]
        for l in ctx.labels:
            if ctx.info.mod[l] == BOOL:
                out.append((('all events so far are cached', l), lambda x, l=l: tbool(x.cur(l)) == full(x)))
                out.append((('an event so far is not cached', l), lambda x, l=l: tbool(x.cur(l)) == z3.Not(full(x))))
        return out
    def step(self, name):
        def f(ex, a, k):
            if name == '_load_cache': ex.ghost_set('cached', ex.fresh(AB, 'cached'))
            if name == '_parsing_setup': self.ob.attrs['file_to_parse'] = self.file
            if name == '__parse_trace_file': self.parsed.append(a[1])
            self.log.append(name)
        return f
    def script(self, ex):
        cls = ex.src('trappy.ftrace', 'FTrace')
        self.log, self.parsed, self.file = [], [], Opaque('file'); self.ob = ob = trace_ob(ex)
        l, n, at, pos, mem = parsers(ex); c = z3.Const('dc', S_P); self.pos, self.mem = pos, mem
        ex.ghosts['cached'] = Sym(z3.K(S_P, z3.BoolVal(False)), AB)
        ob.attrs.update(trace_classes=l, trace_path=Opaque('path'))
        off = ex.fresh(BOOL, 'disable_cache')
        K = ClassOf(cls, off); ob.attrs['__class__'] = K; ob.attrs['disable_cache'] = off
        try: ex.call(ex.getattr(ob, '_do_parse'), [], {})
        except PyRaise as x: ex.prove('never fails (%s)' % x.exc.name, False); return
        log = self.log; pid = self.pid
        before = lambda a, b: b not in log or a in log and log.index(a) < log.index(b)
        full = ex.decide(z3.And(z3.Not(off.t), z3.ForAll([c], z3.Implies(mem(c), z3.Select(getg(ex, 'cached'), c)), patterns=[pos(c)])))
        if pid in ('C07', 'C08'):
            ex.prove('windows and normalization are applied exactly once', log.count('_apply_user_parameters') == 1)
            ex.prove('they are applied to complete tables', before('finalize_objects', '_apply_user_parameters') if not full else '_load_cache' in log and log.index('_load_cache') < log.index('_apply_user_parameters') and 'finalize_objects' not in log[log.index('_apply_user_parameters'):])
            ex.prove('nothing is parsed or loaded afterwards', not set(log[log.index('_apply_user_parameters'):]) & {'_load_cache', '__parse_trace_file', 'finalize_objects'})
        if pid in ('C09', 'C10'):
            ex.prove('the cache is written before windows and normalization change the tables', before('_update_cache', '_apply_user_parameters') if '_update_cache' in log else True)
            ex.prove('the cache is written after the tables are complete', before('finalize_objects', '_update_cache'))
            if pid == 'C09':
                ex.prove('the cache is looked at first unless disabled', (z3.If(off.t, z3.BoolVal('_load_cache' not in log and '_update_cache' not in log), z3.BoolVal(log[:1] == ['_load_cache'] and log.count('_load_cache') == 1))))
                ex.prove('the file is parsed exactly once if an event is missing', full or (log.count('__parse_trace_file') == 1 and self.parsed == [self.file] and before('_parsing_setup', '__parse_trace_file') and before('__parse_trace_file', 'finalize_objects') and log.count('finalize_objects') == 1))
                ex.prove('missing events are added to the cache', (z3.Or(off.t, z3.BoolVal(full or log.count('_update_cache') == 1))))
class ClassOf(Ext):
    def __init__(self, cls, off): self.cls, self.off = cls, off
    def py_getattr(self, ex, n):
        if n == 'disable_cache': return self.off
        return ex.getattr(self.cls, n)
f_md5 = z3.Function('md5', S_STR, S_STR); f_text = z3.Function('file_bytes', S_STR, S_STR)
csv_ok, csv_data = z3.Function('csv_readable', S_STR, B), z3.Function('csv_data', S_STR, S_DATA)
csv_path = z3.Function('csv_path', S_P, S_STR)
class Digest(Ext):
    def __init__(self, t): self.d = t
    def py_getattr(self, ex, n):
        if n == 'hexdigest': return Builtin(n, lambda ex, a, k: Sym(f_md5(self.d), STR))
        if n == 'update': return Builtin(n, lambda ex, a, k: self.up(ex, a[0]))
        return super().py_getattr(ex, n)
    def up(self, ex, s):
        if self.d is not None: raise Unsupported('md5 in pieces')
        self.d = ex.term(s, STR)
class Handle(Ext):
    """an open file of the file system model"""
    def __init__(self, path, mode): self.path, self.mode = path, mode
    def py_getattr(self, ex, n):
        if n == '__enter__': return Builtin(n, lambda ex, a, k: self)
        if n == '__exit__': return Builtin(n, lambda ex, a, k: False)
        if n == 'close': return Builtin(n, lambda ex, a, k: None)
        if n == 'read':
            def read(ex, a, k):
                if (a or k) and ex.loops: raise Unsupported('read in pieces')
                if a or k: return uf(ex, 'first_bytes', [Sym(f_text(ex.term(self.path, STR)), STR), *a, *k.values()], STR)
                return Sym(f_text(ex.term(self.path, STR)), STR)
            return Builtin(n, read)
        return super().py_getattr(ex, n)
class NotADict(Ext):
    """a JSON value that dict() rejects"""
    def __init__(self, exc): self.exc = exc
    def py_getattr(self, ex, n): ex.raise_('AttributeError', n)
def install_paths(ex):
    S = ex.specs
    for n in ('basename', 'dirname', 'abspath'): S['os.path.' + n] = lambda ex, a, k, n=n: uf(ex, 'path_' + n, [ex.force(a[0])], STR)
    S['os.path.join'] = pjoin
    S['os.path.splitext'] = lambda ex, a, k: (uf(ex, 'path_root', [ex.force(a[0])], STR), uf(ex, 'path_ext', [ex.force(a[0])], STR))
    S['hashlib.md5'] = lambda ex, a, k: Digest(ex.term(a[0], STR) if a else None)
class LoadCache(Unit):
    """_load_cache with everything it calls: what is taken from the cache and when"""
    name = '_load_cache'; budget = 120
    functions = tuple('trappy.ftrace.' + n for n in ('GenericFTrace._load_cache', 'GenericFTrace._get_cache_metadata', 'GenericFTrace._is_cache_valid', 'FTrace._is_cache_valid', 'GenericFTrace._load_metadata_from_cache', 'FTrace._load_metadata_from_cache'))
    assumes = ('reading metadata.json fails, gives a value that is no dictionary, or an arbitrary dictionary', 'md5 is a function of the content', 'read_csv either raises and leaves the table alone or sets the table to the content of the file', '_calc_max_window and _get_csv_path by their contracts')
    def __init__(self, pid, cls='FTrace'): self.pid, self.cls = pid, cls; self.name = '_load_cache (%s)' % cls
    def setup(self, ex):
        install_paths(ex); S = ex.specs; G = 'trappy.ftrace.GenericFTrace.'
        S['os.path.exists'] = S['os.path.isdir'] = lambda ex, a, k: self.exists(ex, a[0])
        S['shutil.rmtree'] = lambda ex, a, k: self.rm.append(ex.term(a[0], STR))
        S['builtins.open'] = S['io.open'] = self.open
        S['json.load'] = self.json
        S[G + '_calc_max_window'] = lambda ex, a, k: Window(a[0].attrs['basetime'])
        S[G + '_get_csv_path'] = lambda ex, a, k: Sym(csv_path(ex.term(a[1], P)), STR)
        S[G + '_trace_cache_path'] = lambda ex, a, k: Sym(self.dir, STR)
        S['trappy.ftrace.FTrace.__populate_trace_metadata'] = lambda ex, a, k: a[0].attrs.__setitem__('metadata', a[1])
        old = lib['type.dict']
        def mkdict(ex, a, k):
            if a and isinstance(a[0], NotADict): ex.raise_(a[0].exc, 'cannot convert')
            return old(ex, a, k)
        ex.lib['type.dict'] = mkdict
        ex.parser_methods = dict(read_csv=self.read)
        ex.templates.append(self.inv)
    def exists(self, ex, p):
        if not z3.eq(ex.term(p, STR), self.dir): raise Unsupported('test for another path')
        return self.there
    def open(self, ex, a, k):
        p = ex.term(a[0], STR)
        if z3.eq(p, self.trace): return Handle(a[0], a[1] if len(a) > 1 else 'r')
        if not z3.eq(p, self.meta): raise Unsupported('another file is opened')
        ex.decide(z3.BoolVal(True))
        if not ex.decide(self.there.t) or ex.choose('metadata missing'): ex.raise_('FileNotFoundError', 'metadata')
        return Handle(a[0], 'r')
    def json(self, ex, a, k):
        if not isinstance(a[0], Handle) or not z3.eq(ex.term(a[0].path, STR), self.meta): raise Unsupported('json.load')
        for e in ('ValueError', 'TypeError'):
            if ex.choose('bad json ' + e):
                if e == 'ValueError' and ex.choose('no json'): ex.raise_(e, 'no JSON')
                return NotADict(e)
        self.loaded = True
        return self.md
    def read(self, ex, c, a, k):
        p = ex.term(a[0], STR)
        if not ex.decide(csv_ok(p)): ex.raise_('OSError' if ex.choose('unreadable') else 'ValueError', 'csv')
        ex.ghost_set('data', Sym(z3.Store(getg(ex, 'data'), c, csv_data(p)), AD))
    def got(self, c): return z3.And(self.mem(c), csv_ok(csv_path(c)))
    def inv(self, ctx):
        if ctx.seq is None or not {('gh', 'data'), ('gh', 'cached')} & set(ctx.labels) or ctx.seq.inv is None: return []
        c = z3.Const('ic', S_P); ex = ctx.ex; D, C = (lambda: getg(ex, 'data')), (lambda: getg(ex, 'cached'))
        dn = lambda x, c: z3.And(self.got(c), self.pos(c) < x.k)
        return [(('must', 'tables read so far'), lambda x: z3.ForAll([c], z3.Select(D(), c) == z3.If(dn(x, c), csv_data(csv_path(c)), z3.Select(self.D0, c)), patterns=[z3.Select(D(), c)])),
                (('must', 'marked as cached'), lambda x: z3.ForAll([c], z3.Select(C(), c) == dn(x, c), patterns=[z3.Select(C(), c)]))]
    def script(self, ex):
        cls = ex.src('trappy.ftrace', self.cls) if self.cls == 'FTrace' else ex.src('trappy.systrace', self.cls)
        self.rm, self.loaded = [], False
        ob = trace_ob(ex, self.cls, 'trappy.ftrace' if self.cls == 'FTrace' else 'trappy.systrace')
        l, n, at, self.pos, self.mem = parsers(ex)
        self.dir = ex.fresh(STR, 'cachedir').t; path = ex.fresh(STR, 'trace_path'); self.trace = path.t
        self.meta = pjoin(ex, [Sym(self.dir, STR), 'metadata.json'], {}).t
        self.there = ex.fresh(BOOL, 'cache_exists')
        self.md = ex.fresh(DictS(STR, PV), 'metadata'); dom, val = self.md.cell.comps
        ob.attrs.update(trace_classes=l, trace_path=path, basetime=0, endtime=0, max_window=(0, None))
        ex.ghosts['cached'] = Sym(z3.K(S_P, z3.BoolVal(False)), AB); ex.ghosts['data'] = ex.fresh(AD, 'data'); self.D0 = getg(ex, 'data')
        try: ex.call(ex.getattr(ob, '_load_cache'), [], {})
        except PyRaise as x: ex.prove('opening never fails because of the cache (%s)' % x.exc.name, False); return
        if self.pid == 'C10': ex.prove('opening succeeds whatever the cache holds', True)
        keys = ['md5sum', 'basetime', 'endtime'] + (['ftrace'] if self.cls == 'FTrace' else [])
        valid = z3.And(self.there.t, z3.BoolVal(self.loaded), *[z3.Select(dom, lit(k)) for k in keys], z3.Select(val, lit('md5sum')) == S_PV.pstr(f_md5(f_text(self.trace))))
        ok = ex.decide(valid)
        c = ex.fresh(P, 'anyparser').t; C = z3.Select(getg(ex, 'cached'), c); D = z3.Select(getg(ex, 'data'), c)
        bt = ob.attrs['basetime']; V = lambda k: z3.Select(val, lit(k))
        if self.pid == 'C09':
            ex.prove('a table is taken from the cache exactly if the cache is complete, of this content, and the table readable', C == (self.got(c) if ok else z3.BoolVal(False)))
            ex.prove("a cached table is the content of this event's file, others are untouched", D == (z3.If(self.got(c), csv_data(csv_path(c)), z3.Select(self.D0, c)) if ok else z3.Select(self.D0, c)))
            if ok:
                ex.prove('the base time comes from the cache', ex.eq(bt, Sym(V('basetime'), PV)) if not (isinstance(bt, int)) else False)
                ex.prove('the end time comes from the cache', ex.eq(ob.attrs['endtime'], Sym(V('endtime'), PV)))
                if self.cls == 'FTrace': ex.prove('the metadata comes from the cache', 'metadata' in ob.attrs and ex.eq(ob.attrs['metadata'], Sym(V('ftrace'), PV)))
                ex.prove('a valid cache is kept', not self.rm)
            else:
                ex.prove('nothing is taken from a missing or stale cache', ob.attrs['basetime'] == 0 and ob.attrs['endtime'] == 0 and 'metadata' not in ob.attrs)
                ex.prove('a stale cache is dropped', (z3.Or(z3.Not(self.there.t), z3.BoolVal(len(self.rm) == 1 and z3.eq(self.rm[0], self.dir)))))
        if self.pid == 'C07':
            w = ob.attrs['max_window']
            if ok: ex.prove('the window is computed from the base time of the cached data', isinstance(w, Window) and ex.eq(w.base, bt))
            else: ex.prove('without usable cache the window is left alone', w == (0, None))
# ---------------------------------------------------------------- the cache as files
_F = z3.Datatype('FileState')
_F.declare('absent'); _F.declare('partial'); _F.declare('table', ('content', S_DATA)); _F.declare('description', ('current', B))
S_F = _F.create()
AF = Scalar('BY_PATH', z3.ArraySort(S_STR, S_F))
full_data = z3.Function('parsed_table', S_P, S_DATA)      # the table of an event parsed from the trace's current content
class WFile(Ext):
    """a file opened for writing: it is partial until it is closed"""
    def __init__(self, u, path): self.u, self.path, self.value = u, path, None
    def py_getattr(self, ex, n):
        if n == '__enter__': return Builtin(n, lambda ex, a, k: self)
        if n == '__exit__': return Builtin(n, lambda ex, a, k: self.close(ex, a))
        if n == 'close': return Builtin(n, lambda ex, a, k: self.close(ex, (None,)))
        if n == 'write': return Builtin(n, lambda ex, a, k: self.put(ex, a[0]))
        if n in ('flush', 'fileno'): return Builtin(n, lambda ex, a, k: 0)
        return super().py_getattr(ex, n)
    def put(self, ex, v):
        if self.value is not None: raise Unsupported('several writes')
        self.value = v
    def close(self, ex, a):
        if a and a[0] is not None: return False
        st = S_F.description(self.u.complete(ex, self.value.d)) if isinstance(self.value, Dumped) else S_F.partial
        self.u.setfile(ex, self.path, st)
        return False
class Dumped(Ext):
    """the JSON text of a dictionary"""
    def __init__(self, d): self.d = d
class UpdateCache(Unit):
    """_update_cache with everything it calls, against a file-system model: every file-system operation may fail, and the process may end between and
    inside them. Safe: a description of the current trace is only ever next to absent tables and complete tables of the current trace."""
    name = '_update_cache'; budget = 150
    functions = tuple('trappy.ftrace.' + n for n in ('GenericFTrace._update_cache', 'GenericFTrace._prepare_cache_dir', 'GenericFTrace._get_metadata_to_cache', 'FTrace._get_metadata_to_cache'))
    assumes = ('a file being written is partial until it is complete; os.replace is atomic; an interrupted rmtree has removed some of the files', 'a truncated description is not valid JSON', 'every file-system operation may raise an OSError', 'one process at a time uses the cache')
    def __init__(self, pid, cls='FTrace'): self.pid, self.cls = pid, cls; self.name = '_update_cache (%s)' % cls
    def F(self, ex): return getg(ex, 'files')
    def safe(self, ex, F=None):
        F = self.F(ex) if F is None else F; c = z3.Const('sc', S_P)
        return z3.Implies(z3.Select(F, self.meta) == S_F.description(True), z3.ForAll([c], z3.Or(z3.Select(F, csv_path(c)) == S_F.absent, z3.Select(F, csv_path(c)) == S_F.table(full_data(c))), patterns=[csv_path(c)]))
    def check(self, ex, what):
        if self.pid == 'C10': ex.prove('an interruption %s leaves a cache that later opens can trust' % what, self.safe(ex))
    def setfile(self, ex, p, st): ex.ghost_set('files', Sym(z3.Store(self.F(ex), p, st), AF))
    def fail(self, ex, what):
        if ex.choose('%s fails' % what): self.failed = True; ex.raise_('OSError', what)
    def path(self, ex, v):
        """the path as a term; a path that ends differently is no file of the cache"""
        t = ex.term(v, STR); ps = parts_of(v); c = z3.Const('qc', S_P)
        if isinstance(ps[-1], str) and not (ps[-1].endswith('.csv') or 'metadata.json'.endswith(ps[-1]) or ps[-1].endswith('metadata.json')) and not '.csv'.endswith(ps[-1]):
            ex.assume(z3.And(t != self.meta, z3.ForAll([c], csv_path(c) != t, patterns=[csv_path(c)])))
        return t
    def setup(self, ex):
        install_paths(ex); S = ex.specs; G = 'trappy.ftrace.GenericFTrace.'
        S['os.path.exists'] = S['os.path.isdir'] = self.exists
        S['shutil.rmtree'] = self.rmtree; S['os.mkdir'] = S['os.makedirs'] = self.mkdir
        S['builtins.open'] = S['io.open'] = self.open
        S['json.dump'] = self.dump; S['json.dumps'] = lambda ex, a, k: Dumped(a[0])
        S['os.replace'] = S['os.rename'] = self.replace; S['os.remove'] = S['os.unlink'] = self.remove
        S['os.fsync'] = lambda ex, a, k: None
        S[G + '_get_csv_path'] = lambda ex, a, k: Sym(csv_path(ex.term(a[1], P)), STR)
        S[G + '_trace_cache_path'] = lambda ex, a, k: Sym(self.dir, STR)
        ex.parser_methods = dict(write_csv=self.write)
        ex.templates.append(self.inv)
    def isdir(self, ex, p):
        if not z3.eq(ex.term(p, STR), self.dir): raise Unsupported('another directory')
    def exists(self, ex, a, k): self.isdir(ex, a[0]); return ex.ghosts['dir']
    def rmtree(self, ex, a, k):
        self.isdir(ex, a[0])
        p = z3.Const('rp', S_STR); F0 = self.F(ex)
        part = z3.Const(ex.fresh_name('removing'), z3.ArraySort(S_STR, S_F))
        ex.assume(z3.ForAll([p], z3.Or(z3.Select(part, p) == z3.Select(F0, p), z3.Select(part, p) == S_F.absent), patterns=[z3.Select(part, p)]))
        ex.ghost_set('files', Sym(part, AF)); self.check(ex, 'while the old cache is removed')
        if not k.get('ignore_errors'): self.fail(ex, 'rmtree')
        ex.ghost_set('files', Sym(z3.K(S_STR, S_F.absent), AF)); ex.ghost_set('dir', Sym(z3.BoolVal(False), BOOL))
        self.check(ex, 'after the old cache is removed')
    def mkdir(self, ex, a, k):
        self.isdir(ex, a[0]); self.fail(ex, 'mkdir')
        if not k.get('exist_ok') and ex.decide(ex.ghosts['dir'].t): ex.raise_('FileExistsError', 'mkdir')
        ex.ghost_set('dir', Sym(z3.BoolVal(True), BOOL)); self.check(ex, 'after the directory is made')
    def open(self, ex, a, k):
        m = a[1] if len(a) > 1 else k.get('mode', 'r')
        if z3.eq(ex.term(a[0], STR), self.trace) and 'w' not in m and 'a' not in m: return Handle(a[0], m)
        if m not in ('w', 'wt'): raise Unsupported('open for %s' % m)
        p = self.path(ex, a[0]); self.fail(ex, 'open')
        self.setfile(ex, p, S_F.partial); self.check(ex, 'after a file is opened')
        return WFile(self, p)
    def dump(self, ex, a, k):
        if not isinstance(a[1], WFile): raise Unsupported('json.dump')
        self.fail(ex, 'dump'); a[1].put(ex, Dumped(a[0]))
    def replace(self, ex, a, k):
        x, y = self.path(ex, a[0]), self.path(ex, a[1]); self.fail(ex, 'replace')
        v = z3.Select(self.F(ex), x); self.setfile(ex, x, S_F.absent); self.setfile(ex, y, v)
        self.check(ex, 'after a file is moved')
    def remove(self, ex, a, k):
        x = self.path(ex, a[0]); self.fail(ex, 'remove'); self.setfile(ex, x, S_F.absent); self.check(ex, 'after a file is removed')
    def write(self, ex, c, a, k):
        p = self.path(ex, a[0])
        self.setfile(ex, p, S_F.partial); self.check(ex, 'while a table is written'); self.fail(ex, 'write_csv')
        self.setfile(ex, p, S_F.table(z3.Select(getg(ex, 'data'), c))); self.check(ex, 'after a table is written')
    def complete(self, ex, d):
        """the description is complete and describes the trace"""
        ob = self.ob
        want = [('md5sum', Sym(f_md5(f_text(self.trace)), STR)), ('basetime', ob.attrs['basetime']), ('endtime', ob.attrs['endtime'])] + ([('ftrace', ob.attrs['metadata'])] if self.cls == 'FTrace' else [])
        if not isinstance(d, VDict) or d.cell.items is None: return z3.BoolVal(False)
        cs = []
        for k, v in want:
            hit = [x for kk, x in d.cell.items if kk == k]
            cs.append(hit[0] is v if hit and not is_strv(v) and not is_num(v) else ex.eq(hit[0], v) if hit else False)
        return tbool(ex.And(*cs))
    def inv(self, ctx):
        if ctx.seq is None or ('gh', 'files') not in ctx.labels or ctx.seq.inv is None: return []
        ex = ctx.ex; c = z3.Const('ic', S_P); at = lambda p: z3.Select(self.F(ex), p)
        out = [(('must', 'trusted'), lambda x: self.safe(ex)),
               (('must', 'missing tables written so far'), lambda x: z3.ForAll([c], z3.Implies(z3.And(self.mem(c), self.pos(c) < x.k, z3.Not(z3.Select(getg(ex, 'cached'), c))), at(csv_path(c)) == S_F.table(full_data(c))), patterns=[csv_path(c)])),
               (('must', 'description'), lambda x: at(self.meta) == S_F.description(True)),
               (('must', 'tables that were cached'), lambda x: z3.ForAll([c], z3.Implies(z3.Or(z3.Not(self.mem(c)), z3.Select(getg(ex, 'cached'), c)), at(csv_path(c)) == z3.Select(x.entry[('gh', 'files')].t, csv_path(c))), patterns=[csv_path(c)]))]
        return out
    def script(self, ex):
        self.ob = ob = trace_ob(ex, self.cls, 'trappy.ftrace' if self.cls == 'FTrace' else 'trappy.systrace')
        l, n, at, self.pos, self.mem = parsers(ex); c, d = z3.Consts('uc ud', S_P); j = z3.Int('uj')
        self.dir = ex.fresh(STR, 'cachedir').t; self.meta = pjoin(ex, [Sym(self.dir, STR), 'metadata.json'], {}).t; self.trace = ob.attrs['trace_path'].t
        ob.attrs.update(trace_classes=l, metadata=Opaque('trace metadata'), file_to_parse=Opaque('file'), read_from_dat=False)
        owner = z3.Function('csv_owner', S_STR, S_P)
        ex.assume(z3.ForAll([c], z3.And(owner(csv_path(c)) == c, csv_path(c) != self.meta), patterns=[csv_path(c)]))
        ex.ghosts['cached'] = ex.fresh(AB, 'cached'); ex.ghosts['data'] = ex.fresh(AD, 'data'); ex.ghosts['files'] = ex.fresh(AF, 'files'); ex.ghosts['dir'] = ex.fresh(BOOL, 'dir')
        ex.assume(z3.ForAll([c], z3.Implies(self.mem(c), z3.Select(getg(ex, 'data'), c) == full_data(c)), patterns=[full_data(c)]))
        F0, D0, DATA0 = self.F(ex), ex.ghosts['dir'].t, getg(ex, 'data')
        ex.assume(self.safe(ex))
        ex.assume(z3.Implies(z3.Not(D0), z3.And(z3.Select(F0, self.meta) == S_F.absent, z3.ForAll([c], z3.Select(F0, csv_path(c)) == S_F.absent, patterns=[csv_path(c)]))))
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, z3.Select(getg(ex, 'cached'), at(j))), z3.Select(F0, self.meta) == S_F.description(True)), patterns=[at(j)]))
        ex.ghosts['warnings'] = 0; self.failed = False
        try: ex.call(ex.getattr(ob, '_update_cache'), [], {})
        except PyRaise as x: ex.prove('a failing file system never makes opening the trace fail (%s)' % x.exc.name, False); return
        failed = self.failed
        q = ex.fresh(P, 'anyparser').t
        if self.pid == 'C10':
            self.check(ex, 'after the update')
            if failed: ex.prove('a failing file system is reported by a warning', ex.ghosts['warnings'] != 0 if isinstance(ex.ghosts['warnings'], int) else ex.ghosts['warnings'].t != 0)
            ex.prove("the trace's data are not touched", ex.ghosts['data'].t == DATA0 if ob.attrs['trace_classes'] is l else False)
        if self.pid == 'C09' and not failed:
            ex.prove('the description is complete', z3.Implies(n > 0, z3.Select(self.F(ex), self.meta) == S_F.description(True)))
            ex.prove('every event parsed now is in the cache afterwards', z3.Implies(z3.And(self.mem(q), z3.Not(z3.Select(getg(ex, 'cached'), q)), csv_path(q) == csv_path(q)), z3.Select(self.F(ex), csv_path(q)) == S_F.table(full_data(q))))

class CsvPath(Unit):
    """every event has its own file in the cache directory of the trace file"""
    name = 'paths of the cache'; functions = ('trappy.ftrace.GenericFTrace._get_csv_path', 'trappy.ftrace.GenericFTrace._trace_cache_path'); budget = 30
    assumes = ('os.path.join of one directory with different names gives different paths', 'the classes of the events of a trace have different names')
    def setup(self, ex): install_paths(ex)
    def script(self, ex):
        ob = trace_ob(ex); ex.ghosts['cached'] = ex.fresh(AB, 'cached')
        c, d = ex.fresh(P, 'c'), ex.fresh(P, 'd')
        J = fn('path_join', S_STR, S_STR, S_STR); x, y, u, v = z3.Consts('jx jy ju jv', S_STR)
        try: a, b = (ex.call(ex.getattr(ob, '_get_csv_path'), [e], {}) for e in (c, d)); cp = ex.call(ex.getattr(ob, '_trace_cache_path'), [], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        base = Sym(uf(ex, 'path_basename', [ob.attrs['trace_path']], STR).t, STR)
        dir_ = uf(ex, 'path_dirname', [uf(ex, 'path_abspath', [ob.attrs['trace_path']], STR)], STR)
        want = pjoin(ex, [dir_, mkcat(['.', base, '.cache'])], {})
        ex.prove('the cache directory is named after the trace file and lies next to it', ex.eq(cp, want))
        for r, e in ((a, c), (b, d)): ex.prove("the event's file is named after its class and lies in the cache directory", ex.eq(r, pjoin(ex, [cp, mkcat([Sym(p_class(e.t), STR), '.csv'])], {})))
rows0, rows1 = z3.Function('rows_before', S_P, I), z3.Function('rows_after', S_P, I)
class Rows(Ext):
    """a table of which only the number of rows is of interest"""
    def __init__(self, n): self.n = n
    def py_len(self, ex): return Sym(self.n, INT)
    def py_truth(self, ex): ex.raise_('ValueError', 'ambiguous')
    def py_getattr(self, ex, n):
        if n == 'empty': return ex.mkbool(self.n == 0)
        return super().py_getattr(ex, n)
class Finalize(Unit):
    """tables are built exactly for the events that do not come from the cache"""
    name = 'finalize_objects'; functions = ('trappy.bare_trace.BareTrace.finalize_objects',); budget = 60
    assumes = ('create_dataframe by its contract (C05, C06); the finalize_object of an event works on its complete table',)
    def setup(self, ex):
        def bump(g):
            def f(ex, c, a, k):
                if g == 'finalized': ex.prove('an event is finalized after its table is built', z3.Select(getg(ex, 'built'), c) == 1)
                n = getg(ex, g); ex.ghost_set(g, Sym(z3.Store(n, c, z3.Select(n, c) + 1), AN))
            return f
        c = z3.Const('rc', S_P)
        ex.axioms.append(z3.ForAll([c], z3.And(rows0(c) >= 0, rows1(c) >= 0), patterns=[rows0(c), rows1(c)]))
        ex.parser_frames = lambda ex, c: Rows(z3.If(z3.Select(getg(ex, 'built'), c) == 0, rows0(c), rows1(c)))
        ex.parser_methods = dict(create_dataframe=bump('built'), finalize_object=bump('finalized'))
        ex.templates.append(self.inv)
    def inv(self, ctx):
        if ctx.seq is None or ctx.seq.inv is None: return []
        c = z3.Const('ic', S_P); ex = ctx.ex
        return [(('must', g), lambda x, g=g: z3.ForAll([c], z3.Select(getg(ex, g), c) == z3.If(z3.And(self.mem(c), self.pos(c) < x.k, z3.Not(z3.Select(getg(ex, 'cached'), c))), 1, 0), patterns=[z3.Select(getg(ex, g), c)])) for g in ('built', 'finalized') if ('gh', g) in ctx.labels]
    def script(self, ex):
        ob = trace_ob(ex); l, n, at, self.pos, self.mem = parsers(ex); ob.attrs['trace_classes'] = l
        ex.ghosts['cached'] = ex.fresh(AB, 'cached')
        for g in ('built', 'finalized'): ex.ghosts[g] = Sym(z3.K(S_P, z3.IntVal(0)), AN)
        try: ex.call(ex.getattr(ob, 'finalize_objects'), [], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        c = ex.fresh(P, 'anyparser').t
        for g in ('built', 'finalized'): ex.prove('every event that is not cached is %s exactly once, no other is' % g, z3.Select(getg(ex, g), c) == z3.If(z3.And(self.mem(c), z3.Not(z3.Select(getg(ex, 'cached'), c))), 1, 0))
inst = z3.Function('parser_of', S_STR, S_P); name_of = z3.Function('event_with_word', S_STR, S_STR)
class WithEvents(PyObj):
    """a trace object with one attribute per event"""
    def py_getattr_sym(self, ex, n, *default): return Parser(inst(ex.term(n, STR)), P)
class ParseFile(Unit):
    """the file is parsed for exactly the events that are not cached, each under its keyword"""
    name = '__parse_trace_file'; functions = ('trappy.ftrace.GenericFTrace.__parse_trace_file',); budget = 60
    assumes = ('the keywords of the events of a trace are different (C11)', 'an event is an attribute of the trace under its name (C11)', '__populate_data by its contract (C01-C03)')
    def setup(self, ex):
        ex.specs['trappy.ftrace.GenericFTrace.__populate_data'] = self.pop
        ex.specs['io.open'] = ex.specs['builtins.open'] = self.open
        ex.templates.append(self.inv)
    def open(self, ex, a, k):
        ex.prove('the given file is read', z3.eq(ex.term(a[0], STR), self.file.t) and (a[1] if len(a) > 1 else k.get('mode', 'r')) == 'r')
        ex.prove('it is read as UTF-8', k.get('encoding') == 'utf-8')
        self.handle = Handle(a[0], 'r'); return self.handle
    def words(self, ex, d, k):
        """d maps the keywords of the first k events, if not cached, to their parsers"""
        w = z3.Const('ww', S_STR); dom, val = ex.dict_comps(d, DictS(STR, P))
        nm = name_of(w); e = inst(nm); has_ = z3.And(z3.Select(self.dom, nm), self.posn(nm) < k, p_word(e) == w, z3.Not(z3.Select(getg(ex, 'cached'), e)))
        return z3.ForAll([w], z3.And(z3.Select(dom, w) == has_, z3.Implies(has_, z3.Select(val, w) == e)), patterns=[z3.Select(dom, w)])
    def pop(self, ex, a, k):
        self.calls += 1
        ex.prove('the opened file is parsed', a[1] is self.handle)
        ex.prove('line numbers start at zero', ex.eq(a[0].attrs.get('lines'), 0))
        if not isinstance(a[2], VDict): raise Unsupported('the keyword table is no dictionary')
        ex.prove('exactly the events that are not cached are parsed, each under its keyword', self.words(ex, a[2], self.n))
        self.bad = ex.choose('parse error')
        if self.bad: raise PyRaise(VExc(ex.src('trappy.ftrace', 'FTraceParseError'), ('x',)))
    def inv(self, ctx):
        if ctx.seq is None: return []
        return [(('must', 'keyword table', l), lambda x, l=l: self.words(ctx.ex, x.cur(l) if isinstance(x.cur(l), VDict) else VDict(x.cur(l)), x.k)) for l in ctx.labels if ctx.info.mod[l] == DictS(STR, P)]
    def script(self, ex):
        t = trace_ob(ex); ob = WithEvents(ex, t.cls); ob.attrs.update(t.attrs)
        CLS = U('EventClass'); self.calls = 0; self.handle = None
        d = ex.fresh(DictS(STR, CLS), 'class_definitions'); ob.attrs['class_definitions'] = d
        self.dom = d.cell.comps[0]; en = ex.enum(d); self.n = en[0]; self.keys = en[1]
        self.posn = z3.Function('event_position', S_STR, I); s, u = z3.Consts('es eu', S_STR); i = z3.Int('ei')
        sq = ex.seqof(d); self.posn = sq.inv.pos
        ex.assume(z3.ForAll([s], z3.Implies(z3.Select(self.dom, s), name_of(p_word(inst(s))) == s), patterns=[inst(s)]))
        ex.ghosts['cached'] = ex.fresh(AB, 'cached')
        self.file = ex.fresh(STR, 'file')
        m = ex.src('trappy.ftrace', 'GenericFTrace.__parse_trace_file'); self.bad = False
        try: ex.call(m, [ob, self.file], {})
        except PyRaise as e:
            if self.bad: ex.prove('a parse error is a ValueError', ex.exc_matches(e.exc, PyType(ValueError)))
            else: ex.prove('never fails by itself (%s)' % e.exc.name, False)
            return
        ex.prove('a parse error is not swallowed', not self.bad)
        ex.prove('the file is parsed once', self.calls == 1)

class Setup(Unit):
    """which file is parsed, and that a trace file is never removed afterwards"""
    name = '_parsing_setup and _parsing_teardown'; budget = 30
    functions = tuple('trappy.ftrace.' + n for n in ('GenericFTrace._parsing_setup', 'FTrace._parsing_setup', 'FTrace._parsing_teardown'))
    assumes = ('__generate_trace_txt (trace-cmd) returns the name of a temporary file',)
    def setup(self, ex):
        F = 'trappy.ftrace.FTrace.'
        ex.specs[F + '__generate_trace_txt'] = lambda ex, a, k: self.gen(ex, a)
        def gm(ex, a, k):
            ex.prove('the metadata are read from the file that is parsed', a[0].attrs.get('file_to_parse') is (self.tmp if self.dat else self.path)); return self.md
        ex.specs[F + '__get_trace_metadata'] = gm
        ex.specs[F + '__populate_trace_metadata'] = lambda ex, a, k: self.pop.append(a[1])
        ex.specs['os.remove'] = ex.specs['os.unlink'] = lambda ex, a, k: self.gone.append(a[0])
    def gen(self, ex, a): self.made.append(a[1]); return self.tmp
    def script(self, ex):
        self.dat = ex.choose('dat'); self.pop, self.gone, self.made = [], [], []; self.md = Opaque('metadata'); self.tmp = Opaque('temporary')
        ob = trace_ob(ex); ob.attrs['read_from_dat'] = self.dat; self.path = ob.attrs['trace_path']; ex.ghosts['cached'] = ex.fresh(AB, 'cached')
        try: ex.call(ex.getattr(ob, '_parsing_setup'), [], {}); f = ob.attrs['file_to_parse']; ex.call(ex.getattr(ob, '_parsing_teardown'), [], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('a text trace is parsed itself, another one through its text form', f is self.tmp and self.made == [self.path] if self.dat else f is self.path and not self.made)
        ex.prove('the metadata of the trace are set once', self.pop == [self.md])
        ex.prove('only the temporary text form is removed', self.gone == ([self.tmp] if self.dat else []))
