"""pyvc core: shapes, symbolic values, path exploration and the proof back ends."""
import os, subprocess, tempfile, time, itertools, pickle
from fractions import Fraction
import z3

class Unsupported(Exception):
    """A construct outside the verified subset: the obligation stays open."""

class SideEffect(Unsupported):
    """A side effect where only pure evaluation is possible (a comprehension over an unbounded sequence is then run as a loop)"""

class PathEnd(Exception):
    """The current path is finished (infeasible, or closed at a loop back edge)."""

class PyRaise(Exception):
    """a Python exception of the program under verification"""
    def __init__(self, exc): self.exc = exc

class Restart(Exception):
    """Loop information changed: the whole unit is explored again."""

# ------------------------------------------------------------------ sorts
_sorts = {}
def sort(name):
    if name not in _sorts:
        _sorts[name] = z3.DeclareSort(name)
    return _sorts[name]
S_STR = sort('Str')
S_REF = sort('Ref')
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_PV = z3.Datatype('PV')
_PV.declare('pnone')
_PV.declare('pbool', ('b', B))
_PV.declare('pint', ('i', I))
_PV.declare('preal', ('r', R))
_PV.declare('pstr', ('s', S_STR))
_PV.declare('pref', ('o', S_REF))
S_PV = _PV.create()

_fns = {}
def fn(name, *sorts_):
    key = (name,) + tuple(s.sexpr() if hasattr(s, 'sexpr') else str(s) for s in sorts_)
    if key not in _fns:
        nm = name if not any(k[0] == name for k in _fns) else name + '#%d' % len(_fns)
        _fns[key] = z3.Function(nm, *sorts_)
    return _fns[key]

# ------------------------------------------------------------------ string literals
strid = z3.Function('strid', S_STR, I)
_lits = {}
def lit(s):
    if s not in _lits:
        _lits[s] = (z3.Const('"' + s + '"', S_STR), len(_lits))
    return _lits[s][0]
_litterm = {}
def lit_axioms():
    return [strid(c) == i for c, i in _lits.values()]
def lit_of(t):
    """python string of a literal term, or None"""
    if z3.is_const(t) and t.sort() == S_STR:
        n = t.decl().name()
        if n.startswith('"') and n[1:-1] in _lits and z3.eq(_lits[n[1:-1]][0], t):
            return n[1:-1]
    return None

cat2 = z3.Function('cat', S_STR, S_STR, S_STR)
_parts = {}
def parts_of(v):
    """list of python strings / z3 terms making up a string value"""
    if isinstance(v, str):
        return [v] if v else []
    t = v.t if isinstance(v, Sym) else v
    if t.get_id() in _parts and z3.eq(_parts[t.get_id()][0], t):
        return list(_parts[t.get_id()][1])
    l = lit_of(t)
    if l is not None:
        return [l] if l else []
    return [t]
def mkcat(parts):
    out = []
    for p in parts:
        for q in (parts_of(p)):
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != '' if isinstance(q, str) else True:
                out.append(q)
    if not out:
        return ''
    if len(out) == 1:
        return out[0] if isinstance(out[0], str) else Sym(out[0], STR)
    t = None
    for p in reversed(out):
        pt = lit(p) if isinstance(p, str) else p
        t = pt if t is None else cat2(pt, t)
    _parts[t.get_id()] = (t, out)
    return Sym(t, STR)

# ------------------------------------------------------------------ shapes
class Shape:
    def __eq__(self, o): return type(self) is type(o) and self.key() == o.key()
    def __hash__(self): return hash((type(self).__name__, self.key()))
    def key(self): return ()
    def __repr__(self): return type(self).__name__
    scalar = False

_scalars = {}
def _scalar(key): return _scalars[key]
class Scalar(Shape):
    scalar = True
    def __init__(self, name, srt): self.name, self.sort = name, srt; _scalars[(type(self).__name__, name)] = self
    def __reduce__(self): return (_scalar, ((type(self).__name__, self.name),))
    def key(self): return (self.name,)
    def __repr__(self): return self.name
    def sorts(self): return [self.sort]
    def unpack(self, ex, c): return Sym(c[0], self)

INT = Scalar('INT', I); REAL = Scalar('REAL', R); BOOL = Scalar('BOOL', B)
STR = Scalar('STR', S_STR); PV = Scalar('PV', S_PV)

class U(Scalar):
    """opaque sort; `cls` (an Ext subclass) gives it Python behaviour"""
    def __init__(self, name, cls=None, **kw):
        super().__init__(name, sort(name)); self.cls = cls; self.kw = kw
    def unpack(self, ex, c):
        return self.cls(c[0], self, **self.kw) if self.cls else Sym(c[0], self)

class RefS(Scalar):
    """reference to an instance of a modelled class"""
    def __init__(self, cls): super().__init__('Ref:' + cls, S_REF); self.cls = cls
    def unpack(self, ex, c): return VRef(c[0], self.cls)

class NoneS(Shape):
    def sorts(self): return []
    def unpack(self, ex, c): return None
NONE = NoneS()

class ConstS(Shape):
    def __init__(self, v): self.v = v
    def key(self): return (id(self.v),)
    def sorts(self): return []
    def unpack(self, ex, c): return self.v
    def __repr__(self): return 'Const(%r)' % (self.v,)

class BotS(Shape):
    def sorts(self): return []
    def unpack(self, ex, c): raise Unsupported('element of unknown shape')
BOT = BotS()

class TupleS(Shape):
    def __init__(self, *elems): self.elems = tuple(elems)
    def key(self): return self.elems
    def sorts(self): return [s for e in self.elems for s in e.sorts()]
    def unpack(self, ex, c):
        out, p = [], 0
        for e in self.elems:
            n = len(e.sorts()); out.append(e.unpack(ex, c[p:p+n])); p += n
        return tuple(out)
    def __repr__(self): return 'Tuple%r' % (self.elems,)

class OptS(Shape):
    def __init__(self, inner): self.inner = inner
    def key(self): return (self.inner,)
    def sorts(self): return [B] + self.inner.sorts()
    def unpack(self, ex, c): return VOpt(c[0], c[1:], self.inner)
    def __repr__(self): return 'Opt(%r)' % self.inner

class ListS(Shape):
    def __init__(self, elem): self.elem = elem
    def key(self): return (self.elem,)
    def sorts(self): return [I] + [z3.ArraySort(I, s) for s in self.elem.sorts()]
    def unpack(self, ex, c): return VList(ex.newcell('list', comps=list(c), shape=self))
    def __repr__(self): return 'List(%r)' % self.elem

class DictS(Shape):
    def __init__(self, k, v): self.k, self.v = k, v
    def key(self): return (self.k, self.v)
    def sorts(self):
        if isinstance(self.k, BotS): return []        # still empty
        if len(self.k.sorts()) != 1: raise Unsupported('dict key of shape %r' % (self.k,))
        ks = self.k.sorts()[0]
        return [z3.ArraySort(ks, B)] + [z3.ArraySort(ks, s) for s in self.v.sorts()]
    def unpack(self, ex, c): return VDict(ex.newcell('dict', comps=list(c), shape=self))
    def __repr__(self): return 'Dict(%r,%r)' % (self.k, self.v)

class SetS(Shape):
    def __init__(self, elem): self.elem = elem
    def key(self): return (self.elem,)
    def sorts(self): return [z3.ArraySort(self.elem.sorts()[0], B)]
    def unpack(self, ex, c): return VSet(ex.newcell('set', comps=list(c), shape=self))
    def __repr__(self): return 'Set(%r)' % self.elem

# ------------------------------------------------------------------ values
class Sym:
    __slots__ = ('t', 's')
    def __init__(self, t, s): self.t, self.s = t, s
    def __repr__(self): return 'Sym(%s:%s)' % (self.t, self.s)

class VOpt:
    """None if .isnone else a value of shape .inner"""
    def __init__(self, isnone, comps, inner): self.isnone, self.comps, self.inner = isnone, list(comps), inner
    def __repr__(self): return 'Opt(%s)' % (self.isnone,)

class VRef:
    def __init__(self, t, cls): self.t, self.cls = t, cls
    def __repr__(self): return 'Ref(%s:%s)' % (self.t, self.cls)

class Cell:
    """storage of one container"""
    def __init__(self, ex, kind, label, items=None, comps=None, shape=None):
        self.kind, self.label, self.items, self._comps, self.shape = kind, label, items, comps, shape
        self.birth = ex.tick(); self.enum = None; self.views = []
    @property
    def comps(self): return self._comps
    def setc(self, ex, comps, shape=None):
        ex.note_write(self)
        self._comps = list(comps); self.items = None; self.enum = None
        if shape is not None: self.shape = shape

class ViewCell(Cell):
    """container stored inside another symbolic container: reads and writes go through"""
    def __init__(self, ex, kind, parent, key, off, shape):
        self.kind, self.parent, self.key, self.off, self.shape = kind, parent, key, off, shape
        self.items = None; self.birth = parent.birth; self.label = ('view',) ; self.enum = None; self.views = []
        self.stale = False; parent.views.append(self)
    @property
    def comps(self):
        if self.stale: raise Unsupported('stale view of a nested container')
        n = len(self.shape.sorts())
        return [z3.Select(a, self.key) for a in self.parent.comps[self.off:self.off+n]]
    def setc(self, ex, comps, shape=None):
        if self.stale: raise Unsupported('stale view of a nested container')
        if shape is not None and shape != self.shape: raise Unsupported('nested container of another shape')
        pc = list(self.parent.comps)
        for i, c in enumerate(comps):
            pc[self.off+i] = z3.Store(pc[self.off+i], self.key, c)
        en = self.parent.enum
        self.parent.setc(ex, pc); self.parent.enum = en
        self.enum = None

class VList:
    def __init__(self, cell): self.cell = cell
class VDict:
    def __init__(self, cell, default=None): self.cell = cell; self.default = default
class VSet:
    def __init__(self, cell): self.cell = cell

class Ext:
    """base of modelled objects (regex matches, data frames, files ...); subclasses implement py_* hooks"""
    shape = None
    def py_getattr(self, ex, name): raise Unsupported('attribute %s of %s' % (name, type(self).__name__))
    def py_setattr(self, ex, name, v): raise Unsupported('set attribute %s of %s' % (name, type(self).__name__))
    def py_call(self, ex, args, kw): raise Unsupported('call of %s' % type(self).__name__)
    def py_getitem(self, ex, k): raise Unsupported('subscript of %s' % type(self).__name__)
    def py_setitem(self, ex, k, v): raise Unsupported('item assignment on %s' % type(self).__name__)
    def py_delitem(self, ex, k): raise Unsupported('del item on %s' % type(self).__name__)
    def py_binop(self, ex, op, o, rev): raise Unsupported('operator %s on %s' % (op, type(self).__name__))
    def py_cmp(self, ex, op, o, rev): raise Unsupported('comparison %s on %s' % (op, type(self).__name__))
    def py_unary(self, ex, op): raise Unsupported('unary %s on %s' % (op, type(self).__name__))
    def py_iter(self, ex): raise Unsupported('iteration over %s' % type(self).__name__)
    def py_len(self, ex): raise Unsupported('len of %s' % type(self).__name__)
    def py_contains(self, ex, v): raise Unsupported('in %s' % type(self).__name__)
    def py_truth(self, ex): return True
    def py_eq(self, ex, o):
        if self is o: return True
        raise Unsupported('== on %s' % type(self).__name__)
    def py_isnone(self, ex): return False

class ExtU(Ext):
    """modelled object identified by a term of an opaque sort"""
    def __init__(self, t, shape): self.t, self.shape = t, shape

class Seq:
    """an iterable with a length: concrete `items`, or symbolic n and get(j)"""
    def __init__(self, items=None, n=None, get=None, what=None):
        self.items, self.n, self.get, self.what = items, n, get, what
        self.kinv = self.pairs = None   # the same for the keys of a dict's values; numbering of pairs
        self.inv = None         # Inverse when the elements (or their keys) are known to be distinct
class Inverse:
    """position of a key in a sequence of distinct keys: key(j), pos(k) and member(k) as terms"""
    def __init__(self, key, pos, member): self.key, self.pos, self.member = key, pos, member

def is_num(v): return (isinstance(v, (int, Fraction)) and not isinstance(v, bool)) or (isinstance(v, Sym) and v.s in (INT, REAL))
def is_boolv(v): return isinstance(v, bool) or (isinstance(v, Sym) and v.s == BOOL)
def is_strv(v): return isinstance(v, str) or (isinstance(v, Sym) and v.s == STR)

def tbool(v):
    return v.t if isinstance(v, Sym) else z3.BoolVal(bool(v)) if not z3.is_expr(v) else v

def pv_isnum(t): return z3.Or(S_PV.is_pint(t), S_PV.is_preal(t), S_PV.is_pbool(t))
def pv_num(t): return z3.If(S_PV.is_pint(t), z3.ToReal(S_PV.i(t)), z3.If(S_PV.is_pbool(t), z3.If(S_PV.b(t), z3.RealVal(1), z3.RealVal(0)), S_PV.r(t)))
def pv_eq(a, b): return z3.Or(a == b, z3.And(pv_isnum(a), pv_isnum(b), pv_num(a) == pv_num(b)))

def default_of(srt):
    return z3.Const('dflt!' + str(srt).replace(' ', '_'), srt)

def join(a, b):
    if a == b: return a
    if isinstance(a, BotS): return b
    if isinstance(b, BotS): return a
    if isinstance(a, NoneS): return b if isinstance(b, OptS) or b == PV else OptS(b)
    if isinstance(b, NoneS): return join(b, a)
    if isinstance(a, OptS) or isinstance(b, OptS):
        ia = a.inner if isinstance(a, OptS) else a
        ib = b.inner if isinstance(b, OptS) else b
        j = join(ia, ib)
        return j if j == PV else OptS(j)
    if {a, b} == {INT, REAL}: return REAL
    pvs = (INT, REAL, BOOL, STR, PV)
    if a in pvs and b in pvs: return PV
    if isinstance(a, RefS) and isinstance(b, RefS): return a if a.cls == b.cls else RefS('object')
    if isinstance(a, TupleS) and isinstance(b, TupleS) and len(a.elems) == len(b.elems):
        return TupleS(*[join(x, y) for x, y in zip(a.elems, b.elems)])
    if isinstance(a, ListS) and isinstance(b, ListS): return ListS(join(a.elem, b.elem))
    if isinstance(a, SetS) and isinstance(b, SetS): return SetS(join(a.elem, b.elem))
    if isinstance(a, DictS) and isinstance(b, DictS): return DictS(join(a.k, b.k), join(a.v, b.v))
    raise Unsupported('no common shape for %r and %r' % (a, b))

# ------------------------------------------------------------------ solver back ends
class Backend:
    def __init__(self, tmo=8000, deep=False):
        self.tmo, self.deep = tmo, deep
        self.time = {'z3': 0.0, 'cvc5': 0.0}
        self.count = {'z3': 0, 'cvc5': 0}
        self.cross = {'agree': 0, 'unknown': 0, 'disagree': 0}
    def cvc5(self, assertions, secs):
        s = z3.Solver(); s.add(*assertions)
        txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        t0 = time.time()
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % int(secs*1000), '--full-saturate-quant', f.name], capture_output=True, text=True, timeout=secs+5)
            out = p.stdout.split('\n')[0].strip()
        except subprocess.TimeoutExpired:
            out = 'unknown'
        finally:
            os.unlink(f.name)
        self.time['cvc5'] += time.time() - t0
        return out if out in ('sat', 'unsat') else 'unknown'

RATE = 2000       # solver steps per millisecond: limits are counted in steps, so that verdicts do not depend on the load
def limit(s, ms):
    s.set('rlimit', int(ms * RATE)); s.set('timeout', int(ms * 10))
def mk_solver(tmo, mbqi=False):
    s = z3.Solver()
    limit(s, tmo)
    s.set('auto_config', False)
    s.set('smt.mbqi', mbqi)
    s.set('smt.random_seed', 1)
    return s

class Obl:
    def __init__(self, name, status, backend, secs, detail=''):
        self.name, self.status, self.backend, self.secs, self.detail = name, status, backend, secs, detail

# ------------------------------------------------------------------ explorer
class LoopInfo:
    def __init__(self): self.mod = {}; self.dropped = set(); self.maybe = {}; self.depth = 0

class Explorer:
    MAXPATHS = 600
    MAXRESTARTS = 120
    def __init__(self, name, backend, log=None):
        self.name, self.backend = name, backend
        self.loopinfo = {}; self.axioms = []; self.templates = []
        self.obls = []; self.covers = {}; self.notes = set(); self.errors = []
        self.log = log; self.deadline = None
        self.cache = {}; self.keep = {}; self.leafn = 0
        self.split = self.wid = self.nforks = 0; self.learning = False
        self._fields = {}       # declared heap fields of modelled classes
    # --- state of one path
    def reset(self):
        self.clock = 0; self.trail = []; self.pos = 0; self.counters = {}
        self.solver = mk_solver(600)
        self.nlits = 0
        self.binders = []; self.guards = []
        self.loops = []; self.callstack = []; self.reg = {}
        self.purity = []; self.fieldcells = {}; self.pc_dead = False; self.joins = {}
        self.asserted = []
        self.flush_lits()
        for a in self.axioms: self.assume(a)
    def tick(self): self.clock += 1; return self.clock
    def newlabel(self, *base):
        base = tuple(base) + (tuple(self.callstack),)
        n = self.counters.get(base, 0); self.counters[base] = n + 1
        return base + (n,)
    def flush_lits(self):
        ax = lit_axioms()
        for a in ax[self.nlits:]: self.solver.add(a)
        self.nlits = len(ax)
    def newcell(self, kind, items=None, comps=None, shape=None, label=None):
        if label is None:
            label = self.newlabel('c', kind, getattr(self, 'curpos', None))
        c = Cell(self, kind, label, items=items, comps=comps, shape=shape)
        self.reg[label] = c
        return c
    def fresh_name(self, base):
        n = self.counters.get(('fresh', base), 0); self.counters[('fresh', base)] = n + 1
        return '%s!%d' % (base, n)
    def fresh_term(self, srt, base='v'):
        nm = self.fresh_name(base)
        if self.binders:
            f = z3.Function(nm, *([b.sort() for b in self.binders] + [srt]))
            return f(*self.binders)
        return z3.Const(nm, srt)
    def fresh_fun(self, base, *sorts_):
        """a new function; inside a pure context also a function of the bound variables"""
        bs = list(self.binders)
        f = z3.Function(self.fresh_name(base), *([b.sort() for b in bs] + list(sorts_)))
        g = lambda *a: f(*(bs + list(a)))
        g.rng = sorts_[-1]
        return g
    def fresh(self, shape, base='v'):
        comps = [self.fresh_term(s, base) for s in shape.sorts()]
        v = shape.unpack(self, comps)
        self.wf(shape, comps)
        return v
    def wf(self, shape, comps):
        """well-formedness of a symbolic value: list lengths are non-negative"""
        if isinstance(shape, ListS): self.assume(comps[0] >= 0)
        elif isinstance(shape, TupleS):
            p = 0
            for e in shape.elems:
                n = len(e.sorts()); self.wf(e, comps[p:p+n]); p += n
        elif isinstance(shape, OptS): self.wf(shape.inner, comps[1:])
        if isinstance(shape, ListS) and isinstance(shape.elem, ListS):
            j = z3.Int(self.fresh_name('wj'))
            self.assume(z3.ForAll([j], z3.Select(comps[1], j) >= 0, patterns=[z3.Select(comps[1], j)]))
        if isinstance(shape, DictS) and isinstance(shape.v, ListS):
            j = z3.Const(self.fresh_name('wk'), shape.k.sorts()[0])
            self.assume(z3.ForAll([j], z3.Select(comps[1], j) >= 0, patterns=[z3.Select(comps[1], j)]))
    def assume(self, c):
        if c is True: return
        c = tbool(c)
        self.flush_lits()
        if self.binders:
            self.facts.append(z3.ForAll(self.binders, z3.Implies(z3.And(*self.guards), c) if self.guards else c))
        self.solver.add(c); self.asserted.append(c)
    def pure(self, f, binders):
        """explore f() for arbitrary values of the binder constants, without side effects;
        returns [(guard, ('val', v) | ('exc', e))]"""
        sv = (self.trail, self.pos, self.pending, self.guards, self.binders)
        outer_facts = getattr(self, 'facts', [])
        self.purity.append(self.tick()); self.facts = []
        self.binders = self.binders + list(binders)
        base_guards = list(self.guards)
        work, results = [([], 0)], []
        n = 0
        try:
            while work:
                pre = work.pop()[0]; n += 1
                if n > 64: raise Unsupported('too many paths in a pure context')
                self.trail, self.pos, self.pending = list(pre), 0, []
                self.guards = list(base_guards)
                self.solver.push(); na = len(self.asserted); nl = self.nlits
                out = None
                try: out = ('val', f())
                except PyRaise as e: out = ('exc', e)
                except PathEnd: pass
                finally:
                    self.solver.pop(); del self.asserted[na:]; self.nlits = nl; self.flush_lits()
                g = self.guards[len(base_guards):]
                if out is not None: results.append((z3.And(*g) if len(g) > 1 else g[0] if g else z3.BoolVal(True), out))
                work.extend(self.pending)
        finally:
            facts = self.facts
            self.trail, self.pos, self.pending, self.guards, self.binders = sv
            self.purity.pop(); self.facts = outer_facts
        for c in facts:
            if self.binders: self.facts.append(c)
            self.solver.add(c); self.asserted.append(c)
        return results
    # --- decisions
    def ckey(self, *more):
        """identity of a query: the asserted facts and the goal (terms are shared, and kept alive by self.keep)"""
        for a in self.asserted:
            self.keep[a.get_id()] = a
        for a in more:
            if z3.is_expr(a): self.keep[a.get_id()] = a
        return (tuple(a.get_id() for a in self.asserted), tuple(a.get_id() if z3.is_expr(a) else a for a in more))
    def feasible(self, c=None):
        self.flush_lits()
        key = self.ckey('f', c)
        if key in self.cache: return self.cache[key]
        r = self.solver.check(*( [c] if c is not None else [])) != z3.unsat
        self.cache[key] = r
        return r
    def decide(self, c):
        """branch on a condition; returns a python bool"""
        if isinstance(c, bool): return c
        c = z3.simplify(tbool(c))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget of the unit used up')
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if isinstance(d, tuple): raise Unsupported('nondeterministic replay')
        else:
            t = self.feasible(c); f = self.feasible(z3.Not(c))
            if t and f: d = self.fork()
            elif t: d = True
            elif f: d = False
            else: raise PathEnd('infeasible')
            self.trail.append(d)
        self.pos += 1
        cc = c if d else z3.Not(c)
        if self.binders: self.guards.append(cc); self.solver.add(cc); self.asserted.append(cc)
        else: self.solver.add(cc); self.asserted.append(cc)
        return d
    def choose(self, tag):
        """unconditional two-way split"""
        if self.pos < len(self.trail): d = self.trail[self.pos]
        else:
            d = self.fork(); self.trail.append(d)
        self.pos += 1
        return d
    def fork(self):
        """both ways are possible: take one, and put the other one on the list (or leave it to another worker)"""
        if not self.purity:
            self.nforks += 1
            if self.nforks <= self.split: return not (self.wid >> (self.nforks - 1)) & 1
        self.pending.append((self.trail[:self.pos] + [False], self.nforks)); return True
    # --- purity / writes
    def note_write(self, cell):
        for born in self.purity:
            if cell.birth < born: raise SideEffect('side effect inside a pure context')
        root = cell
        while isinstance(root, ViewCell): root = root.parent
        for v in root.views:
            pass
        self.loop_write(root.birth, root.label, lambda: None)
    def loop_write(self, birth, label, _=None):
        for ctx in self.loops:
            if birth < ctx.birth and label not in ctx.info.mod:
                ctx.info.mod[label] = None
                self.retry_inner(ctx.info)
                raise Restart('modified %r' % (label,))
    def retry_inner(self, info):
        """what a loop changes is known better now: invariants given up for it and the loops inside it get another chance"""
        for i in self.loopinfo.values():
            if i.depth > info.depth or i is info: i.dropped = {d for d in i.dropped if d[0] == 'same'}
    # --- proofs
    def check_valid(self, goal, tmo=None, quick=False):
        """returns (status, backend, secs, detail)"""
        goal = tbool(goal)
        g = z3.simplify(goal)
        if z3.is_true(g): return 'proved', 'simplifier', 0.0, ''
        self.flush_lits()
        key = self.ckey('v', goal)
        hit = self.cache.get(key)
        if hit is not None and (hit[0] == 'proved' or quick or not hit[4]): return hit[:4]
        r = self.check_valid_(goal, tmo, quick)
        self.cache[key] = tuple(r) + (quick,)
        return r
    def check_valid_(self, goal, tmo, quick):
        t0 = time.time()
        ng = z3.Not(goal)
        tmo = tmo or self.backend.tmo
        s = self.solver
        s.push(); limit(s, min(tmo, 3000)); s.add(ng)
        r = s.check(); wall = time.time() - t0 > 9.5 * min(tmo, 3000) / 1000
        why = '' if r != z3.unknown else s.reason_unknown()
        s.pop(); limit(s, 600)
        self.backend.time['z3'] += time.time() - t0
        if r == z3.unsat: return 'proved', 'z3', time.time() - t0, ''
        if quick: return 'open', 'z3', time.time() - t0, why
        base = lit_axioms() + list(self.asserted) + [ng]
        for mb, tm in ((False, tmo), (True, tmo)):
            s2 = mk_solver(tm, mb); s2.add(*base)
            t1 = time.time(); r2 = s2.check(); wall = wall or time.time() - t1 > 9.5 * tm / 1000; self.backend.time['z3'] += time.time() - t1
            if r2 == z3.unsat: return 'proved', 'z3', time.time() - t0, ''
            if r2 == z3.sat and mb:
                try: m = str(s2.model())[:6000]
                except Exception: m = ''
                return 'refuted', 'z3', time.time() - t0, m
            why = s2.reason_unknown() if r2 == z3.unknown else ''
        r3 = self.backend.cvc5(base, 10 if not self.backend.deep else 30)
        if r3 == 'unsat': return 'proved', 'cvc5', time.time() - t0, ''
        return ('undecided' if wall else 'open'), 'z3+cvc5', time.time() - t0, why
    def leaves(self, g):
        """formulas whose conjunction implies g: conjunctions, quantifiers and cases taken apart"""
        if z3.is_and(g): return [y for x in g.children() for y in self.leaves(x)]
        if z3.is_quantifier(g) and g.is_forall():
            vs = []
            for i in range(g.num_vars()):
                self.leafn += 1; vs.append(z3.Const('leaf%d!%s' % (self.leafn, g.var_name(i)), g.var_sort(i)))
            return self.leaves(z3.substitute_vars(g.body(), *reversed(vs)))
        if z3.is_implies(g): return [z3.Implies(g.arg(0), x) for x in self.leaves(g.arg(1))]
        if z3.is_app_of(g, z3.Z3_OP_ITE) and g.sort() == B: return [z3.Implies(g.arg(0), x) for x in self.leaves(g.arg(1))] + [z3.Implies(z3.Not(g.arg(0)), x) for x in self.leaves(g.arg(2))]
        return [g]
    def check_split(self, g, strong=True):
        self.leafn = 0
        for x in self.leaves(tbool(g)):
            if self.check_valid(x, quick=True)[0] != 'proved' and not (strong and self.check_valid(x)[0] == 'proved'): return False
        return True
    def prove(self, name, goal, tmo=None):
        if self.purity or self.binders: raise SideEffect('obligation in a pure context')
        if self.learning: self.assume(goal); return True
        self.covers[name] = self.covers.get(name, False)
        nfail = sum(1 for o in self.obls if o.status != 'proved')
        st, be, secs, det = self.check_valid(goal, tmo, quick=True)
        if st != 'proved' and nfail < 2:
            self.leafn = 0
            ls = self.leaves(tbool(goal))
            if len(ls) > 1:
                rs = [self.check_valid(x, tmo, quick=True) for x in ls]
                if all(r[0] == 'proved' for r in rs): st, be, secs, det = 'proved', 'z3', sum(r[2] for r in rs), ''
            if st != 'proved': st, be, secs, det = self.check_valid(goal, tmo)
        if not self.covers[name]:
            if self.feasible(): self.covers[name] = True
        self.backend.count[be] = self.backend.count.get(be, 0) + 1
        if st == 'proved' and self.backend.deep and be == 'z3':
            r = self.backend.cvc5(lit_axioms() + list(self.asserted) + [z3.Not(tbool(goal))], 10)
            self.backend.cross['agree' if r == 'unsat' else 'disagree' if r == 'sat' else 'unknown'] += 1
        path = ''.join('T' if d else 'F' for d in self.trail)
        self.obls.append(Obl(name, st, be, secs, (('path %s; goal %s\n' % (path, str(goal)[:3000])) + det) if st != 'proved' else ''))
        self.assume(goal)
        return st == 'proved'
    # --- main loop
    def run(self, script, budget=None):
        self.deadline = time.time() + budget if budget else None
        restarts = 0
        while True:
            self.obls = []; self.covers = {}; self.errors = []; npaths = 0
            self.pending = [([], 0)]
            try:
                while self.pending:
                    pre, nf = self.pending.pop(); nobl = len(self.obls)
                    npaths += 1
                    if npaths > self.MAXPATHS: self.errors.append('too many paths'); break
                    self.reset(); self.trail = list(pre); self.nforks = nf
                    try:
                        script(self)
                    except PathEnd: pass
                    except Unsupported as e:
                        import traceback
                        if self.feasible():
                            self.errors.append('unsupported: %s (at %s)' % (e, getattr(self, 'curpos', None)))
                            if self.log: traceback.print_exc()
                            break
                    if self.nforks < self.split and self.wid >> self.nforks: del self.obls[nobl:]; npaths -= 1     # another worker counts this path
                    if self.deadline and time.time() > self.deadline:
                        self.errors.append('time budget of the unit used up'); break
                break
            except Restart as e:
                restarts += 1
                if not str(e).startswith('dropped'):      # a shape was learnt: candidates dropped without it get another chance
                    for inf in self.loopinfo.values(): inf.dropped = set(c for c in inf.dropped if c[0] not in ('must', 'tmpl'))
                if self.log: self.log('restart: %s' % e)
                if restarts > self.MAXRESTARTS: self.errors.append('loop analysis did not converge'); break
                if self.deadline and time.time() > self.deadline:
                    self.errors.append('time budget of the unit used up'); break
        self.npaths = npaths; self.restarts = restarts
        if not self.split: self.vacuity()
        return self
    def vacuity(self):
        for n, c in self.covers.items():
            if not c: self.errors.append('vacuous: no feasible path reaches %s' % n)
    # --- several workers share the paths of one unit: worker w takes the branches its bits name at the first forks of a path.
    # All of them end up with the same loop information (joined until nothing changes), so the invariants assumed by one are proved by all.
    def state(self):
        out = {}
        for k, i in self.loopinfo.items():
            out[k] = ({l: (None if isinstance(sh, ConstS) or sh is None else sh) for l, sh in i.mod.items()}, set(i.dropped))
        return out
    def run_parallel(self, script, budget, split):
        self.deadline = time.time() + budget
        ws = []
        for w in range(1 << split):
            r1, w1 = os.pipe(); r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    import ctypes; ctypes.CDLL(None).prctl(1, 9)      # end with the parent
                    for x in ws: os.close(x[1]); os.close(x[2])
                    os.close(w1); os.close(r2)
                    self.worker(script, w, split, os.fdopen(r1, 'rb'), os.fdopen(w2, 'wb'))
                finally: os._exit(0)
            os.close(r1); os.close(w2)
            ws.append((pid, w1, r2, os.fdopen(w1, 'wb'), os.fdopen(r2, 'rb')))
        res = [None] * len(ws); sent = [{} for _ in ws]; todo = list(range(len(ws))); glob = {}
        rounds = 0; learning = True
        try:
            while todo:
                rounds += 1
                for i in todo: pickle.dump((glob, max(1, self.deadline - time.time()), learning), ws[i][3]); ws[i][3].flush()
                for i in todo:
                    try: res[i] = pickle.load(ws[i][4])
                    except (EOFError, pickle.UnpicklingError) as e: res[i] = dict(state={}, obls=[], covers={}, errors=['a worker ended: %r' % (e,)], npaths=0, restarts=0)
                if rounds > 40 or time.time() > self.deadline: break
                new = {}
                for r in res:
                    for k, (mod, dr) in r['state'].items():
                        m, _ = new.setdefault(k, ({}, set()))
                        for l, sh in mod.items():
                            m[l] = sh if m.get(l) is None else m[l] if sh is None else join(m[l], sh)
                for k, (m, d) in new.items():
                    for r in res:
                        if k not in r['state']: continue
                        mod, dr = r['state'][k]
                        d |= dr if mod == m else set(c for c in dr if c[0] not in ('must', 'tmpl'))
                # a worker that never meets a loop has nothing to agree on
                todo = [i for i, r in enumerate(res) if any(k in r['state'] and r['state'][k] != v for k, v in new.items())]
                glob = new
                if self.log: self.log('round %d: %d workers go on (%.0f s left)' % (rounds, len(todo), self.deadline - time.time()))
                if not todo and learning: learning = False; todo = list(range(len(ws)))       # now prove
        finally:
            for pid, _, _, a, b in ws:
                try: a.close(); b.close()
                except Exception: pass
                try: os.kill(pid, 9)
                except OSError: pass
                try: os.waitpid(pid, 0)
                except OSError: pass
        self.obls, self.covers, self.errors = [], {}, []
        self.npaths = self.restarts = 0
        for r in res:
            self.obls += r['obls']; self.npaths += r['npaths']; self.restarts += r['restarts']
            for n, c in r['covers'].items(): self.covers[n] = self.covers.get(n, False) or c
            for e in r['errors']:
                if e not in self.errors: self.errors.append(e)
            for k in ('z3', 'cvc5'): self.backend.time[k] += r.get(k, 0)
            for k, v in r.get('cross', {}).items(): self.backend.cross[k] += v
            for a in ('inlined', 'specced', 'assumptions'):
                if hasattr(self, a): getattr(self, a).update(r.get(a, ()))
        if not self.errors: self.vacuity()
        return self
    def worker(self, script, w, split, inp, out):
        self.wid, self.split = w, split
        log = self.log
        if log: self.log = lambda t: log('[%d] %s' % (w, t))
        while True:
            try: glob, left, self.learning = pickle.load(inp)
            except EOFError: return
            t0 = dict(self.backend.time)
            for k, (mod, dr) in glob.items():
                i = self.loopinfo.setdefault(k, LoopInfo())
                grown = False
                for l, sh in mod.items():
                    if l not in i.mod: i.mod[l] = sh; grown = True
                    elif sh is not None and i.mod[l] != sh: i.mod[l] = sh; grown = True
                if grown: i.dropped = set(c for c in i.dropped if c[0] not in ('must', 'tmpl'))
                i.dropped |= dr
            try: self.run(script, left); err = list(self.errors)
            except BaseException as e:
                import traceback
                err = ['engine error: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])]
            bt = self.backend.time
            pickle.dump(dict(state=self.state(), obls=self.obls, covers=self.covers, errors=err, npaths=getattr(self, 'npaths', 0), restarts=getattr(self, 'restarts', 0),
                             z3=bt['z3'], cvc5=bt['cvc5'], cross=self.backend.cross, **{a: set(getattr(self, a)) for a in ('inlined', 'specced', 'assumptions') if hasattr(self, a)}), out)
            out.flush()
