"""pyvc interpreter: symbolic execution of Python source against contracts."""
import ast, os, builtins as _bi
from .core import *
from . import core

class VExc:
    def __init__(self, cls, args=(), attrs=None): self.cls, self.args, self.attrs = cls, args, attrs or {}
    def __repr__(self): return 'Exc(%s)' % self.name
    @property
    def name(self): return self.cls if isinstance(self.cls, str) else self.cls.name

class Frame:
    def __init__(self, ex, parent, module, func=None, cls=None, label=None):
        self.vars = {}; self.parent, self.module, self.func, self.cls = parent, module, func, cls
        self.birth = ex.tick(); self.label = label if label is not None else ex.newlabel('f')
        self.globals_decl = set(); self.nonlocals = set(); self.yields = None; self.iscomp = False
        self.self_val = None
        ex.reg[('fr', self.label)] = self

class VFunc:
    def __init__(self, node, closure, module, qual, cls=None, name=None):
        self.node, self.closure, self.module, self.qual, self.cls = node, closure, module, qual, cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.kind = None   # 'class' | 'static' | 'prop'
        self.defaults = None; self.kwdefaults = None
    def __repr__(self): return 'VFunc(%s)' % self.qual

class VBound:
    def __init__(self, func, self_val): self.func, self.self_val = func, self_val

class VClass:
    def __init__(self, name, module, bases, node=None):
        self.name, self.module, self.bases, self.node = name, module, bases, node
        self.attrs = {}; self.qual = '%s.%s' % (module.name if module else '', name)
        self.birth = 0; self.label = ('cls', self.qual)
    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, VClass):
                for c in b.mro():
                    if c not in out: out.append(c)
        return out
    def excnames(self):
        out = {self.name}
        for b in self.bases:
            if isinstance(b, VClass): out |= b.excnames()
            elif isinstance(b, PyType): out |= {c.__name__ for c in b.t.__mro__}
        return out
    def __repr__(self): return 'VClass(%s)' % self.name

class PyObj:
    def __init__(self, ex, cls, label=None, attrs=None):
        self.cls = cls; self.attrs = dict(attrs or {}); self.birth = ex.tick()
        self.label = label if label is not None else ex.newlabel('o', cls.name if cls else 'obj', getattr(ex, 'curpos', None))
        ex.reg[('ob', self.label)] = self
    def __repr__(self): return 'Obj(%s)' % (self.cls.name if self.cls else '')

class PyType:
    """a builtin type used as a value (int, str, list, OSError ...)"""
    def __init__(self, t): self.t = t
    @property
    def name(self): return self.t.__name__
    def __repr__(self): return 'PyType(%s)' % self.t.__name__

class Builtin:
    def __init__(self, name, f): self.name, self.f = name, f
    def __repr__(self): return 'Builtin(%s)' % self.name

class ModRef:
    def __init__(self, name): self.name = name
    def __repr__(self): return 'ModRef(%s)' % self.name

class SuperV:
    def __init__(self, cls, self_val): self.cls, self.self_val = cls, self_val

class VIter:
    """a stateful iterator over a Seq"""
    def __init__(self, ex, seq, label=None):
        self.seq = seq; self.birth = ex.tick(); self.label = label or ex.newlabel('it', getattr(ex, 'curpos', None)); self.posn = 0
        ex.reg[('it', self.label)] = self

class UnboundV:
    def __repr__(self): return 'UNBOUND'
UNBOUND = UnboundV()

class BreakE(Exception): pass
class ContinueE(Exception): pass
class ReturnE(Exception):
    def __init__(self, v): self.v = v

class Module:
    def __init__(self, vc, name, path):
        self.name, self.path = name, path
        self.src = open(path, encoding='utf-8').read()
        self.tree = parse(self.src)
        self.defs = {}; self.cache = {}
        self.index(self.tree.body)
    def index(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)): self.defs[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name): self.defs[t.id] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name): self.defs[st.target.id] = st
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names:
                    self.defs[(a.asname or a.name).split('.')[0] if isinstance(st, ast.Import) and not a.asname else (a.asname or a.name)] = (st, a)
            elif isinstance(st, ast.Try): self.index(st.body)
            elif isinstance(st, ast.If): self.index(st.body)

def _load(n):
    import copy
    m = copy.copy(n); m.ctx = ast.Load(); return m

EXC_ALIAS = {'IOError': 'OSError', 'EnvironmentError': 'OSError'}

def parse(src):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ast.parse(src)

class VC(Explorer):
    def __init__(self, name, backend, repo='/repo', lib=None, log=None):
        super().__init__(name, backend, log)
        self.repo = repo; self.modules = {}; self.lib = lib or {}
        self.specs = {}; self.extmods = {}; self.touched = set(); self.inlined = set(); self.specced = set()
        self.classes = {}     # class name -> dict(fields=, src=VClass, methods=)
        self.assumptions = set()

    # ------------------------------------------------------------ source access
    def module(self, name):
        if name not in self.modules:
            p = os.path.join(self.repo, *name.split('.'))
            path = p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
            if not os.path.exists(path): raise Unsupported('no module ' + name)
            self.modules[name] = Module(self, name, path)
        return self.modules[name]
    def src(self, mod, qual):
        """value of a (dotted) definition in a repo module"""
        v = self.modattr(self.module(mod), qual.split('.')[0])
        for p in qual.split('.')[1:]:
            v = self.class_lookup(v, p, mangle_from=v)
            if v is None: raise Unsupported('no %s in %s' % (qual, mod))
        return v
    def modattr(self, m, name):
        if name in m.cache: return m.cache[name]
        if name == '__name__': return m.name
        if name == '__file__': return m.path
        d = m.defs.get(name)
        if d is None: return None
        fr = Frame(self, None, m, label=('mod', m.name)); fr.birth = 0
        fr.vars = ModVars(self, m)
        if isinstance(d, ast.FunctionDef): v = self.mkfunc(d, None, m, m.name + '.' + name)
        elif isinstance(d, ast.ClassDef): v = self.mkclass(d, m, fr)
        elif isinstance(d, (ast.Assign, ast.AnnAssign)): v = self.eval(d.value, fr)
        else:
            st, a = d
            if isinstance(st, ast.Import):
                v = ModRef(a.name if a.asname else a.name.split('.')[0])
            else:
                v = self.import_from(st.module, a.name, m, st.level)
        if not isinstance(v, (VList, VDict, VSet)): m.cache[name] = v
        return v
    def import_from(self, modname, name, m=None, level=0):
        if level:
            base = m.name.split('.') if m.path.endswith('__init__.py') else m.name.split('.')[:-1]
            base = base[:len(base) - (level - 1)]
            modname = '.'.join(base + ([modname] if modname else []))
        full = modname + '.' + name
        if full in self.specs: return Builtin(full, self.specs[full])
        if full in self.lib: return self.libval(full)
        if modname in ('builtins',): return self.builtin(name)
        p = os.path.join(self.repo, *modname.split('.'))
        if os.path.exists(p + '.py') or os.path.exists(os.path.join(p, '__init__.py')):
            mm = self.module(modname)
            pp = os.path.join(p, name)
            if mm is m and (os.path.exists(pp + '.py') or os.path.isdir(pp)): return ModRef(full)
            if name in mm.defs: return self.modattr(mm, name)
            if os.path.exists(pp + '.py') or os.path.isdir(pp): return ModRef(full)
        if modname == '__future__': return None
        return ModRef(full)
    def libval(self, full):
        v = self.lib[full]
        return Builtin(full, v) if callable(v) and not isinstance(v, (Ext, PyType, Builtin, VClass, VFunc)) else v
    def builtin(self, name):
        if 'builtins.' + name in self.specs: return Builtin(name, self.specs['builtins.' + name])
        if 'builtins.' + name in self.lib: return self.libval('builtins.' + name)
        o = getattr(_bi, name, None)
        if isinstance(o, type): return PyType(o)
        if name in ('True', 'False', 'None'): return {'True': True, 'False': False, 'None': None}[name]
        return None
    def mkfunc(self, node, closure, module, qual, cls=None):
        f = VFunc(node, closure, module, qual, cls)
        for d in getattr(node, 'decorator_list', []):
            n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if n == 'classmethod': f.kind = 'class'
            elif n == 'staticmethod': f.kind = 'static'
            elif n == 'property': f.kind = 'prop'
            elif n in ('abstractmethod',): pass
            else: f.kind = 'unsupported-decorator'
        return f
    def mkclass(self, node, m, fr):
        bases = []
        for b in node.bases:
            try: bases.append(self.eval(b, fr))
            except (Unsupported, PyRaise): bases.append(None)
        c = VClass(node.name, m, bases, node)
        cf = Frame(self, fr, m, label=('clsbody', c.qual)); cf.birth = 0
        for st in node.body:
            if isinstance(st, ast.FunctionDef): c.attrs[st.name] = self.mkfunc(st, fr, m, c.qual + '.' + st.name, c)
            elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                c.attrs[st.targets[0].id] = ('lazy', st.value, fr)
            elif isinstance(st, ast.ClassDef): c.attrs[st.name] = self.mkclass(st, m, fr)
        return c
    def classattr(self, c, name):
        v = c.attrs[name]
        if isinstance(v, tuple) and len(v) == 3 and v[0] == 'lazy':
            v = self.eval(v[1], v[2])
            if not isinstance(v, (VList, VDict, VSet, PyObj)): c.attrs[name] = v
        return v
    def class_lookup(self, c, name, mangle_from=None):
        if isinstance(c, VClass):
            names = [name]
            if mangle_from is not None and name.startswith('__') and not name.endswith('__'): pass
            for k in c.mro():
                if name in k.attrs: return self.classattr(k, name)
        return None

    # ------------------------------------------------------------ shapes of values
    def shape_of(self, v):
        if v is None: return NONE
        if isinstance(v, bool): return BOOL
        if isinstance(v, int): return INT
        if isinstance(v, (Fraction, float)): return REAL
        if isinstance(v, str): return STR
        if isinstance(v, tuple): return TupleS(*[self.shape_of(x) for x in v])
        if isinstance(v, Sym): return v.s
        if isinstance(v, VOpt): return OptS(v.inner)
        if isinstance(v, VRef): return RefS(v.cls)
        if isinstance(v, VList):
            if v.cell.items is None: return v.cell.shape
            s = BOT
            for x in v.cell.items: s = join(s, self.shape_of(x))
            return ListS(s)
        if isinstance(v, VDict):
            if v.cell.items is None: return v.cell.shape
            k = s = BOT
            for a, b in v.cell.items: k = join(k, self.shape_of(a)); s = join(s, self.shape_of(b))
            return DictS(k, s)
        if isinstance(v, VSet):
            if v.cell.items is None: return v.cell.shape
            s = BOT
            for a in v.cell.items: s = join(s, self.shape_of(a))
            return SetS(s)
        if isinstance(v, Ext) and v.shape is not None: return v.shape
        if isinstance(v, (VFunc, VBound, VClass, PyType, Builtin, ModRef, PyObj, Ext)): return ConstS(v)
        if v is UNBOUND: return ConstS(v)
        raise Unsupported('no shape for %r' % (v,))
    def term(self, v, shape=None):
        return self.pack(v, shape or self.shape_of(v))[0]
    def pack(self, v, s):
        if isinstance(s, OptS):
            if v is None: return [z3.BoolVal(True)] + [default_of(x) for x in s.inner.sorts()]
            if isinstance(v, VOpt):
                iv = v.inner.unpack(self, v.comps) if v.inner != s.inner else None
                return [v.isnone] + (v.comps if iv is None else self.pack(iv, s.inner))
            return [z3.BoolVal(False)] + self.pack(v, s.inner)
        if isinstance(s, NoneS):
            if v is None: return []
            raise Unsupported('pack %r as None' % (v,))
        if s == PV:
            if isinstance(v, Sym) and v.s == PV: return [v.t]
            if v is None: return [S_PV.pnone]
            if is_boolv(v): return [S_PV.pbool(tbool(v))]
            if isinstance(v, int) or (isinstance(v, Sym) and v.s == INT): return [S_PV.pint(self.term(v, INT))]
            if isinstance(v, Fraction) or (isinstance(v, Sym) and v.s == REAL): return [S_PV.preal(self.term(v, REAL))]
            if is_strv(v): return [S_PV.pstr(self.term(v, STR))]
            if isinstance(v, VRef): return [S_PV.pref(v.t)]
            if isinstance(v, VOpt):
                return [z3.If(v.isnone, S_PV.pnone, self.pack(v.inner.unpack(self, v.comps), PV)[0])]
            raise Unsupported('pack %r as PV' % (v,))
        if isinstance(v, VOpt):
            return self.pack(self.force(v), s)
        if s == INT:
            if isinstance(v, bool): return [z3.IntVal(int(v))]
            if isinstance(v, int): return [z3.IntVal(v)]
            if isinstance(v, Sym) and v.s == INT: return [v.t]
            if isinstance(v, Sym) and v.s == BOOL: return [z3.If(v.t, z3.IntVal(1), z3.IntVal(0))]
        if s == REAL:
            if isinstance(v, (int, Fraction)): return [z3.RealVal(str(Fraction(v)))]
            if isinstance(v, float): return [z3.RealVal(str(Fraction(repr(v))))]
            if isinstance(v, Sym) and v.s == REAL: return [v.t]
            if isinstance(v, Sym) and v.s == INT: return [z3.ToReal(v.t)]
        if s == BOOL:
            if isinstance(v, bool): return [z3.BoolVal(v)]
            if isinstance(v, Sym) and v.s == BOOL: return [v.t]
        if s == STR:
            if isinstance(v, str): return [lit(v)]
            if isinstance(v, Sym) and v.s == STR: return [v.t]
        if isinstance(s, RefS) and isinstance(v, VRef): return [v.t]
        if isinstance(v, Sym) and v.s == PV and s in (INT, REAL, BOOL, STR):
            return self.pack(self.force(v), s)
        if isinstance(s, ConstS) and v is s.v: return []
        if isinstance(s, TupleS) and isinstance(v, tuple) and len(v) == len(s.elems):
            return [c for x, e in zip(v, s.elems) for c in self.pack(x, e)]
        if isinstance(s, ListS) and isinstance(v, VList): return self.list_comps(v, s)
        if isinstance(s, DictS) and isinstance(v, VDict): return self.dict_comps(v, s)
        if isinstance(s, SetS) and isinstance(v, VSet): return self.set_comps(v, s)
        if isinstance(v, Ext) and v.shape == s and hasattr(s, 'pack'): return s.pack(self, v)
        if isinstance(v, (Ext, Sym)) and getattr(v, 'shape', getattr(v, 's', None)) == s: return [v.t]
        raise Unsupported('cannot represent %r as %r' % (v, s))
    def pack_under(self, mk, shape, j):
        """components of mk() in another shape, for every j"""
        res = self.pure(lambda: self.pack(mk(), shape), [j])
        if any(o[0] != 'val' for _, o in res) or not res: raise Unsupported('conversion')
        comps = res[-1][1][1]
        for c, o in reversed(res[:-1]): comps = [z3.If(c, a, b) for a, b in zip(o[1], comps)]
        return comps
    def list_comps(self, v, s):
        c = v.cell
        if c.items is None:
            if c.shape == s: return list(c.comps)
            # widen element-wise
            n = c.comps[0]; j = z3.Int(self.fresh_name('wj'))
            out = [n]
            if isinstance(c.shape.elem, BotS): return out + [z3.K(I, default_of(x)) for x in s.elem.sorts()]
            for comp in self.pack_under(lambda: c.shape.elem.unpack(self, [z3.Select(a, j) for a in c.comps[1:]]), s.elem, j):
                a = self.fresh_term(z3.ArraySort(I, comp.sort()), 'wid')
                self.assume(z3.ForAll([j], z3.Select(a, j) == comp, patterns=[z3.Select(a, j)]))
                out.append(a)
            return out
        arrs = [z3.K(I, default_of(x)) for x in s.elem.sorts()]
        for i, x in enumerate(c.items):
            for q, t in enumerate(self.pack(x, s.elem)): arrs[q] = z3.Store(arrs[q], z3.IntVal(i), t)
        return [z3.IntVal(len(c.items))] + arrs
    def dict_comps(self, v, s):
        c = v.cell
        if c.items is None:
            if c.shape == s: return list(c.comps)
            if isinstance(c.shape.k, BotS):
                ks = s.k.sorts()[0]
                return [z3.K(ks, z3.BoolVal(False))] + [z3.K(ks, default_of(x)) for x in s.v.sorts()]
            if c.shape.k == s.k:
                j = z3.Const(self.fresh_name('wk'), s.k.sorts()[0]); out = [c.comps[0]]
                for comp in self.pack_under(lambda: c.shape.v.unpack(self, [z3.Select(a, j) for a in c.comps[1:]]), s.v, j):
                    a = self.fresh_term(z3.ArraySort(s.k.sorts()[0], comp.sort()), 'wid')
                    self.assume(z3.ForAll([j], z3.Select(a, j) == comp, patterns=[z3.Select(a, j)])); out.append(a)
                return out
            raise Unsupported('widen dict keys')
        ks = s.k.sorts()[0]
        arrs = [z3.K(ks, z3.BoolVal(False))] + [z3.K(ks, default_of(x)) for x in s.v.sorts()]
        for k, x in c.items:
            kt = self.pack(k, s.k)[0]
            arrs[0] = z3.Store(arrs[0], kt, z3.BoolVal(True))
            for q, t in enumerate(self.pack(x, s.v)): arrs[q+1] = z3.Store(arrs[q+1], kt, t)
        return arrs
    def set_comps(self, v, s):
        c = v.cell
        if c.items is None:
            if c.shape == s: return list(c.comps)
            raise Unsupported('widen set')
        a = z3.K(s.elem.sorts()[0], z3.BoolVal(False))
        for x in c.items: a = z3.Store(a, self.pack(x, s.elem)[0], z3.BoolVal(True))
        return [a]
    def detach(self, v):
        """an immutable copy of the current value (for entry snapshots)"""
        if isinstance(v, (VList, VDict, VSet)):
            c = v.cell
            n = Cell(self, c.kind, ('snap',)); n.shape = c.shape
            if c.items is None: n._comps = list(c.comps)
            elif c.kind == 'dict': n.items = [[k, self.detach(x)] for k, x in c.items]
            else: n.items = [self.detach(x) for x in c.items]
            r = type(v)(n)
            if isinstance(v, VDict): r.default = v.default
            return r
        if isinstance(v, tuple): return tuple(self.detach(x) for x in v)
        return v
    def force(self, v):
        while True:
            if isinstance(v, VOpt):
                if self.decide(v.isnone): return None
                v = v.inner.unpack(self, v.comps); continue
            if isinstance(v, Sym) and v.s == PV:
                t = v.t
                for test, mk in ((S_PV.is_pstr, lambda: Sym(S_PV.s(t), STR)), (S_PV.is_pint, lambda: Sym(S_PV.i(t), INT)),
                                 (S_PV.is_pnone, lambda: None), (S_PV.is_pbool, lambda: Sym(S_PV.b(t), BOOL)),
                                 (S_PV.is_preal, lambda: Sym(S_PV.r(t), REAL))):
                    if self.decide(test(t)): return mk()
                return VRef(S_PV.o(t), 'object')
            return v

    # ------------------------------------------------------------ exceptions
    def raise_(self, name, *args):
        raise PyRaise(VExc(name, args))
    def exc_matches(self, exc, h):
        if h is None: return True
        if isinstance(h, tuple): return any(self.exc_matches(exc, x) for x in h)
        want = h.t.__name__ if isinstance(h, PyType) else h.name if isinstance(h, VClass) else h.name.split('.')[-1] if isinstance(h, (ModRef, Builtin)) else None
        if want is None: raise Unsupported('except %r' % (h,))
        want = EXC_ALIAS.get(want, want)
        if isinstance(exc.cls, VClass): names = exc.cls.excnames()
        else:
            t = getattr(_bi, exc.cls, None)
            names = {c.__name__ for c in t.__mro__} if isinstance(t, type) else {exc.cls, 'Exception', 'BaseException'}
            if exc.cls in ('JSONDecodeError',): names |= {'ValueError'}
            if exc.cls in ('EmptyDataError', 'ParserError'): names |= {'ValueError'}
        return want in names

    # ------------------------------------------------------------ truth, equality, comparison
    def truth(self, v):
        if v is None: return False
        if isinstance(v, (bool, int, Fraction, float, str, tuple)): return bool(v)
        if isinstance(v, Sym):
            if v.s == BOOL: return v.t
            if v.s == INT: return v.t != 0
            if v.s == REAL: return v.t != 0
            if v.s == STR: return v.t != lit('')
            if v.s == PV:
                t = v.t; P = S_PV
                return z3.Or(z3.And(P.is_pbool(t), P.b(t)), z3.And(P.is_pint(t), P.i(t) != 0), z3.And(P.is_preal(t), P.r(t) != 0),
                             z3.And(P.is_pstr(t), P.s(t) != lit('')), P.is_pref(t))
        if isinstance(v, VOpt):
            return z3.And(z3.Not(v.isnone), tbool(self.truth(v.inner.unpack(self, v.comps))))
        if isinstance(v, (VList, VDict, VSet)):
            n = self.length(v)
            return n != 0 if isinstance(n, int) else n.t != 0
        if isinstance(v, Ext): return v.py_truth(self)
        if isinstance(v, PyObj):
            f = self.class_lookup(v.cls, '__len__') or self.class_lookup(v.cls, '__bool__') if v.cls else None
            if f: raise Unsupported('__len__/__bool__ truth')
            return True
        if isinstance(v, (VRef, VFunc, VBound, VClass, PyType, Builtin, ModRef, VIter)): return True
        raise Unsupported('truth of %r' % (v,))
    def cond(self, v): return self.decide(self.truth(v))
    def isnone(self, v):
        if v is None: return True
        if isinstance(v, VOpt): return v.isnone
        if isinstance(v, Sym) and v.s == PV: return S_PV.is_pnone(v.t)
        if isinstance(v, Ext): return v.py_isnone(self)
        return False
    def And(self, *cs):
        cs = [c for c in cs if c is not True]
        if any(c is False for c in cs): return False
        return True if not cs else z3.And(*[tbool(c) for c in cs])
    def Or(self, *cs):
        cs = [c for c in cs if c is not False]
        if any(c is True for c in cs): return True
        return False if not cs else z3.Or(*[tbool(c) for c in cs])
    def Not(self, c): return (not c) if isinstance(c, bool) else z3.Not(tbool(c))
    nan_term = None        # the cell that a function mapped over a column looks at: when missing it equals nothing, not even itself
    def eq(self, a, b):
        t = self.nan_term
        if t is not None:
            for v in (a, b):
                if isinstance(v, Sym) and v.s == PV and z3.eq(v.t, t):
                    r = self.eq_(a, b); return self.And(r, z3.Not(S_PV.is_pnone(t)))
        return self.eq_(a, b)
    def eq_(self, a, b):
        if isinstance(a, float): a = Fraction(repr(a))
        if isinstance(b, float): b = Fraction(repr(b))
        if a is b and not isinstance(a, Ext): return True
        conc = (bool, int, Fraction, str, type(None))
        if isinstance(a, conc) and isinstance(b, conc): return a == b
        if isinstance(a, Ext): return a.py_eq(self, b)
        if isinstance(b, Ext): return b.py_eq(self, a)
        if isinstance(a, VOpt) or isinstance(b, VOpt):
            na, nb = self.isnone(a), self.isnone(b)
            if b is None: return na
            if a is None: return nb
            ia = a.inner.unpack(self, a.comps) if isinstance(a, VOpt) else a
            ib = b.inner.unpack(self, b.comps) if isinstance(b, VOpt) else b
            return self.Or(self.And(na, nb), self.And(self.Not(na), self.Not(nb), self.eq(ia, ib)))
        if isinstance(a, Sym) and a.s == PV or isinstance(b, Sym) and b.s == PV:
            try: x, y = self.pack(a, PV)[0], self.pack(b, PV)[0]
            except Unsupported: return False
            return pv_eq(x, y)
        if a is None or b is None: return False
        if (is_num(a) or is_boolv(a)) and (is_num(b) or is_boolv(b)):
            if is_boolv(a) and is_boolv(b): return tbool(a) == tbool(b)
            sh = REAL if REAL in (self.shape_of(a), self.shape_of(b)) else INT
            return self.term(a if not is_boolv(a) else self.toint(a), sh) == self.term(b if not is_boolv(b) else self.toint(b), sh)
        if is_strv(a) and is_strv(b): return self.term(a, STR) == self.term(b, STR)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and self.And(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, VRef) and isinstance(b, VRef): return a.t == b.t
        if isinstance(a, VList) and isinstance(b, VList):
            if a.cell.items is not None and b.cell.items is not None:
                x, y = a.cell.items, b.cell.items
                return len(x) == len(y) and self.And(*[self.eq(p, q) for p, q in zip(x, y)])
            na, nb = self.length(a), self.length(b)
            j = z3.Int(self.fresh_name('eqj'))
            sa = self.seqof(a); sb = self.seqof(b)
            for u, w in ((sa, nb), (sb, na)):
                if u.items is not None:
                    o = sb if u is sa else sa
                    return z3.And(self.term(w, INT) == len(u.items), *[tbool(self.eq(x, o.get(z3.IntVal(i)))) for i, x in enumerate(u.items)])
            return z3.And(self.term(na, INT) == self.term(nb, INT),
                          z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.term(na, INT)), tbool(self.eq(sa.get(j), sb.get(j))))))
        if isinstance(a, VDict) and isinstance(b, VDict):
            s = join(self.shape_of(a), self.shape_of(b))
            ca, cb = self.dict_comps(a, s), self.dict_comps(b, s)
            k = z3.Const(self.fresh_name('eqk'), s.k.sorts()[0])
            return z3.And(ca[0] == cb[0], z3.ForAll([k], z3.Implies(z3.Select(ca[0], k), z3.And(*[z3.Select(x, k) == z3.Select(y, k) for x, y in zip(ca[1:], cb[1:])]))))
        if isinstance(a, VSet) and isinstance(b, VSet):
            s = join(self.shape_of(a), self.shape_of(b))
            return self.set_comps(a, s)[0] == self.set_comps(b, s)[0]
        if isinstance(a, Sym) and isinstance(b, Sym) and a.s == b.s: return a.t == b.t
        if isinstance(a, PyType) and isinstance(b, PyType): return a.t is b.t
        if isinstance(a, PyObj) or isinstance(b, PyObj):
            for p, q in ((a, b), (b, a)):
                if isinstance(p, PyObj) and p.cls and self.class_lookup(p.cls, '__eq__'):
                    return self.truth(self.call(VBound(self.class_lookup(p.cls, '__eq__'), p), [q], {}))
            return False
        if isinstance(a, Sym) and isinstance(a.s, U) or isinstance(b, Sym) and isinstance(b.s, U):
            raise Unsupported('== between %r and %r' % (a, b))
        return False
    def toint(self, v):
        if isinstance(v, bool): return int(v)
        if isinstance(v, Sym) and v.s == BOOL: return Sym(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)), INT)
        return v
    def num2(self, a, b):
        a, b = self.toint(a), self.toint(b)
        sh = REAL if REAL in (self.shape_of(a), self.shape_of(b)) else INT
        return self.term(a, sh), self.term(b, sh), sh
    def order(self, op, a, b):
        """< <= > >="""
        if isinstance(a, Ext): return a.py_cmp(self, op, b, False)
        if isinstance(b, Ext): return b.py_cmp(self, op, a, True)
        a, b = self.force(a), self.force(b)
        if isinstance(a, (bool, int, Fraction)) and isinstance(b, (bool, int, Fraction)) or isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if (is_num(a) or is_boolv(a)) and (is_num(b) or is_boolv(b)):
            x, y, _ = self.num2(a, b)
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        if is_strv(a) and is_strv(b):
            lt = fn('str_lt', S_STR, S_STR, B); x, y = self.term(a, STR), self.term(b, STR)
            return {'<': lt(x, y), '>': lt(y, x), '<=': z3.Or(lt(x, y), x == y), '>=': z3.Or(lt(y, x), x == y)}[op]
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a:
            strict = {'<': '<', '<=': '<', '>': '>', '>=': '>'}[op]
            res = self.order(op, a[-1], b[-1])
            for x, y in reversed(list(zip(a[:-1], b[:-1]))):
                res = self.Or(self.order(strict, x, y), self.And(self.eq(x, y), res))
            return res
        if isinstance(a, VSet) and isinstance(b, VSet):
            s = join(self.shape_of(a), self.shape_of(b)); x, y = self.set_comps(a, s)[0], self.set_comps(b, s)[0]
            if op in ('>=', '>'): x, y = y, x
            k = z3.Const(self.fresh_name('k'), s.elem.sorts()[0])
            r = z3.ForAll([k], z3.Implies(z3.Select(x, k), z3.Select(y, k)))
            return r if op in ('<=', '>=') else z3.And(r, x != y)
        self.raise_('TypeError', 'unorderable')
    def contains(self, c, v):
        if isinstance(c, Ext): return c.py_contains(self, v)
        c = self.force(c)
        if isinstance(c, str) and isinstance(v, str): return v in c
        if is_strv(c):
            v = self.force(v)
            if not is_strv(v): self.raise_('TypeError', 'in string')
            return self.str_contains(c, v)
        if isinstance(c, tuple): return self.Or(*[self.eq(x, v) for x in c])
        if isinstance(c, VList):
            if c.cell.items is not None: return self.Or(*[self.eq(x, v) for x in c.cell.items])
            n = c.cell.comps[0]; j = z3.Int(self.fresh_name('inj'))
            el = self.seqof(c).get(j)
            return z3.Exists([j], z3.And(0 <= j, j < n, tbool(self.eq(el, v))))
        if isinstance(c, VDict):
            if c.cell.items is not None: return self.Or(*[self.eq(k, v) for k, _ in c.cell.items])
            if isinstance(c.cell.shape.k, BotS): return False
            if isinstance(v, VOpt): v = self.force(v)
            return z3.Select(c.cell.comps[0], self.keyterm(c, v))
        if isinstance(c, VSet):
            if c.cell.items is not None: return self.Or(*[self.eq(k, v) for k in c.cell.items])
            try: kt = self.pack(v, c.cell.shape.elem)[0]
            except Unsupported: return False
            return z3.Select(c.cell.comps[0], kt)
        if isinstance(c, PyObj):
            f = self.class_lookup(c.cls, '__contains__')
            if f: return self.truth(self.call(VBound(f, c), [v], {}))
        if isinstance(c, Seq):
            if c.items is not None: return self.Or(*[self.eq(x, v) for x in c.items])
            if getattr(c, 'dict', None) is not None: return self.contains(c.dict, v)
            j = z3.Int(self.fresh_name('inj'))
            return z3.Exists([j], z3.And(0 <= j, j < self.term(c.n, INT), tbool(self.eq(c.get(j), v))))
        raise Unsupported('in %r' % (c,))
    def str_contains(self, c, v):
        if isinstance(v, str) and v and not any(x in '+-0123456789' for x in v):
            from .lib import structured
            ps = structured(c)
            if ps is not None: return any(isinstance(p, str) and v in p for p in ps)
        f = fn('str_contains', S_STR, S_STR, B)
        return f(self.term(c, STR), self.term(v, STR))
    def keyterm(self, d, k):
        return self.pack(k, d.cell.shape.k)[0]

    # ------------------------------------------------------------ containers
    def mklist(self, items=None): return VList(self.newcell('list', items=list(items or [])))
    def mkdict(self, items=None): return VDict(self.newcell('dict', items=[[self.force(x[0]) if isinstance(x[0], VOpt) else x[0], x[1]] for x in (items or [])]))
    def mkset(self, items=None): return VSet(self.newcell('set', items=list(items or [])))
    def symlist(self, comps, elem): return VList(self.newcell('list', comps=list(comps), shape=ListS(elem)))
    def length(self, v):
        if isinstance(v, (str, tuple)): return len(v)
        if isinstance(v, Sym) and v.s == STR: return Sym(fn('str_len', S_STR, I)(v.t), INT)
        if isinstance(v, (VList,)):
            return len(v.cell.items) if v.cell.items is not None else self.simp_int(v.cell.comps[0])
        if isinstance(v, (VDict, VSet)):
            if v.cell.items is not None: return len(v.cell.items)
            return Sym(self.enum(v)[0], INT)
        if isinstance(v, Ext): return v.py_len(self)
        if isinstance(v, Seq): return len(v.items) if v.items is not None else v.n if isinstance(v.n, int) else Sym(self.term(v.n, INT) if isinstance(v.n, Sym) else v.n, INT)
        if isinstance(v, PyObj):
            f = self.class_lookup(v.cls, '__len__')
            if f: return self.call(VBound(f, v), [], {})
        if isinstance(v, (VOpt,)) or isinstance(v, Sym) and v.s == PV: return self.length(self.force(v))
        self.raise_('TypeError', 'no len')
    def simp_int(self, t):
        t = z3.simplify(t)
        return t.as_long() if z3.is_int_value(t) else Sym(t, INT)
    def elem_of(self, cell, key, off, eshape):
        if isinstance(eshape, (ListS, DictS, SetS)):
            vc = ViewCell(self, {ListS: 'list', DictS: 'dict', SetS: 'set'}[type(eshape)], cell, key, off, eshape)
            return {ListS: VList, DictS: VDict, SetS: VSet}[type(eshape)](vc)
        n = len(eshape.sorts())
        return eshape.unpack(self, [z3.Select(a, key) for a in cell.comps[off:off+n]])
    def lget(self, v, j):
        """element j (a z3 Int or python int) of a symbolic list, no bounds check"""
        return self.elem_of(v.cell, j if z3.is_expr(j) else z3.IntVal(j), 1, v.cell.shape.elem)
    def symbolize(self, v, shape):
        """switch a container to symbolic representation with the given shape"""
        c = v.cell
        if c.items is None and c.shape == shape: return
        comps = self.pack(v, shape)
        # nested containers that had an identity keep it through views
        olds = c.items
        c._comps = comps; c.items = None; c.shape = shape; c.enum = None
        if olds and isinstance(shape, ListS):
            for i, x in enumerate(olds): self.relink(x, c, z3.IntVal(i), 1, shape.elem)
        elif olds and isinstance(shape, DictS):
            for k, x in olds: self.relink(x, c, self.pack(k, shape.k)[0], 1, shape.v)
    def ensure_elem(self, v, x):
        """make the symbolic list able to hold x"""
        s = v.cell.shape
        xs = self.shape_of(x)
        j = join(s.elem, xs)
        if j != s.elem: self.widen(v, ListS(j))
    def widen(self, v, s):
        """change a symbolic container to a wider shape"""
        c = v.cell; chain = []; ns = s
        while isinstance(c, ViewCell):
            if c.off != 1 or not isinstance(c.parent, Cell): raise Unsupported('widening a container inside ' + type(c.parent).__name__)
            chain.append((c, ns)); p = c.parent
            ns = ListS(ns) if p.kind == 'list' else DictS(p.shape.k, ns)
            c = p
        for ctx in self.loops:
            if c.label in ctx.info.mod and c.birth < ctx.birth:
                j = join(ctx.info.mod[c.label], ns) if ctx.info.mod[c.label] is not None else ns
                if j != ctx.info.mod[c.label]:
                    ctx.info.mod[c.label] = j; raise Restart('shape of %r -> %r' % (c.label, j))
        root = {'list': VList, 'dict': VDict, 'set': VSet}[c.kind](c)
        comps = self.pack(root, ns)
        keep = [x for x, _ in chain]
        c.setc(self, comps, ns)
        def mark(q):
            for w in q.views:
                if w not in keep: w.stale = True
                mark(w)
            q.views = [w for w in q.views if w in keep]
        mark(c)
        for x, xs in chain: x.shape = xs; x.enum = None
    def list_append(self, v, x):
        c = v.cell
        if c.items is not None:
            self.note_write(c); c.items.append(x); return
        self.ensure_elem(v, x)
        n, arrs = c.comps[0], c.comps[1:]
        xc = self.pack(x, c.shape.elem)
        c.setc(self, [z3.simplify(n + 1)] + [z3.Store(a, n, t) for a, t in zip(arrs, xc)])
        self.relink(x, c, n, 1, c.shape.elem)
    def relink(self, x, parent, key, off, eshape):
        """a fresh container stored in a symbolic container is from now on a view into it"""
        if isinstance(x, (VList, VDict, VSet)) and (not isinstance(x.cell, ViewCell) or (x.cell.stale and x.cell.parent is parent and x.cell.off == off and z3.eq(x.cell.key, key))):
            x.cell = ViewCell(self, x.cell.kind, parent, key, off, eshape)
    def stale_views(self, c, key=None):
        for w in c.views:
            if key is not None and z3.is_int_value(z3.simplify(w.key)) and z3.is_int_value(z3.simplify(key)) and not z3.eq(z3.simplify(w.key), z3.simplify(key)): continue
            w.stale = True
        c.views = [w for w in c.views if not w.stale]
    def list_index(self, v, i, what='list'):
        """normalised in-range index term/int, raising IndexError"""
        n = self.length(v)
        i = self.force(i)
        if isinstance(i, int) and isinstance(n, int):
            if -n <= i < n: return i % n if n else 0
            self.raise_('IndexError', 'list index out of range')
        it, nt = self.term(i, INT), self.term(n, INT)
        if isinstance(i, int):
            if not self.decide(nt >= (i + 1 if i >= 0 else -i)): self.raise_('IndexError', 'list index out of range')
            return i if i >= 0 else Sym(z3.simplify(nt + i), INT)
        if self.decide(z3.And(0 <= it, it < nt)): return i
        if self.decide(z3.And(it < 0, it >= -nt)): return Sym(z3.simplify(it + nt), INT)
        self.raise_('IndexError', 'list index out of range')
    def seqof(self, v):
        """iterable -> Seq"""
        if isinstance(v, Seq): return v
        if isinstance(v, tuple): return Seq(items=list(v))
        if isinstance(v, str): return Seq(items=list(v))
        if isinstance(v, VList):
            if v.cell.items is not None: return Seq(items=v.cell.items, what=v)
            s = Seq(n=Sym(v.cell.comps[0], INT), get=lambda j: self.lget(v, j), what=v)
            iv = getattr(v.cell, 'inv', None)
            if iv and len(iv[0]) == len(v.cell.comps) and all(z3.eq(a, b) for a, b in zip(iv[0], v.cell.comps)): s.inv = iv[1]
            iv = getattr(v.cell, 'kinv', None)
            if iv and len(iv[0]) == len(v.cell.comps) and all(z3.eq(a, b) for a, b in zip(iv[0], v.cell.comps)): s.kinv = iv[1]
            return s
        if isinstance(v, (VDict, VSet)):
            if v.cell.items is not None:
                s = Seq(items=[x[0] for x in v.cell.items] if isinstance(v, VDict) else list(v.cell.items))
                return s
            n, karr, ks = self.enum(v)
            s = Seq(n=Sym(n, INT), get=lambda j: ks.unpack(self, [z3.Select(karr, j)]))
            s.dict = v; s.inv = self.enum_inv(v)
            return s
        if isinstance(v, Ext):
            return self.seqof(v.py_iter(self))
        if isinstance(v, VIter):
            return v
        if isinstance(v, PyObj):
            f = self.class_lookup(v.cls, '__iter__')
            if f: return self.seqof(self.call(VBound(f, v), [], {}))
        if isinstance(v, (VOpt,)) or isinstance(v, Sym) and v.s == PV:
            return self.seqof(self.force(v))
        if v is None: self.raise_('TypeError', 'not iterable')
        raise Unsupported('iteration over %r' % (v,))
    def enum(self, v):
        """an (arbitrary but fixed) enumeration of a symbolic dict's or set's members"""
        c = v.cell
        if c.enum is None:
            ks = c.shape.k if isinstance(v, VDict) else c.shape.elem
            srt = ks.sorts()[0]; dom = c.comps[0]
            n = self.fresh_term(I, 'enum_n'); a = self.fresh_term(z3.ArraySort(I, srt), 'enum_k')
            inv = z3.Function(self.fresh_name('enum_i'), *([b.sort() for b in self.binders] + [srt, I]))
            iv = lambda x: inv(*(self.binders + [x]))
            i = z3.Int(self.fresh_name('ei')); k = z3.Const(self.fresh_name('ek'), srt)
            self.assume(n >= 0)
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(dom, z3.Select(a, i)), iv(z3.Select(a, i)) == i)), patterns=[z3.Select(a, i)]))
            self.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(0 <= iv(k), iv(k) < n, z3.Select(a, iv(k)) == k)), patterns=[z3.Select(dom, k)]))
            c.enum = (n, a, ks, inv)
        return c.enum[:3]
    def enum_inv(self, v):
        n, a, ks, inv = v.cell.enum; dom = v.cell.comps[0]
        if inv.arity() != 1: bs = list(self.binders); f = (lambda k: inv(*(bs + [k]))) if inv.arity() == len(bs) + 1 else None
        else: f = inv
        return Inverse(lambda j: z3.Select(a, j), f, lambda k: z3.Select(dom, k)) if f is not None else None
    def seq_items(self, seq):
        """concrete list of a Seq, or None"""
        if isinstance(seq, VIter):
            if isinstance(seq.posn, int) and seq.seq.items is not None:
                r = seq.seq.items[seq.posn:]; return r
            return None
        if seq.items is not None: return list(seq.items)
        n = seq.n
        if isinstance(n, Sym):
            n = self.simp_int(n.t)
        if isinstance(n, int) and n <= 64: return [seq.get(z3.IntVal(i)) for i in range(n)]
        return None
    def seq_to_list(self, seq):
        """list(seq)"""
        if isinstance(seq, VIter):
            rest = self.iter_rest(seq); return self.seq_to_list(rest)
        it = self.seq_items(seq)
        if it is not None: return self.mklist(it)
        if isinstance(seq.what, VList):
            c = seq.what.cell; return VList(self.newcell('list', comps=list(c.comps), shape=c.shape))
        r = self.build_list(seq.n, lambda j: seq.get(j))
        if seq.inv is not None and r.cell.items is None and len(r.cell.comps) == 2: r.cell.inv = (list(r.cell.comps), seq.inv)
        if seq.kinv is not None and r.cell.items is None: r.cell.kinv = (list(r.cell.comps), seq.kinv)
        return r
    def iter_rest(self, it):
        p = it.posn; s = it.seq
        n = self.length(s)
        self.loop_write(it.birth, ('it', it.label)); it.posn = n if not isinstance(n, Sym) else n
        if isinstance(p, int) and s.items is not None: return Seq(items=s.items[p:])
        pt = self.term(p, INT); nt = self.term(n, INT)
        r = Seq(n=Sym(z3.simplify(nt - pt), INT), get=lambda j: s.get(j + pt) if s.get else s.items)
        if p == 0 and isinstance(p, int): r.get, r.inv, r.kinv, r.pairs = s.get, s.inv, s.kinv, s.pairs
        return r
    def build_list(self, n, f):
        """the list [f(0), ..., f(n-1)] for pure f; f may raise"""
        nt = self.term(n, INT) if not z3.is_expr(n) else n
        j = z3.Int(self.fresh_name('bj'))
        val, exc = self.pure_value(lambda: f(j), [j], z3.And(0 <= j, j < nt))
        s = self.shape_of(val)
        arrs = []
        for comp in self.pack(val, s):
            a = self.fresh_term(z3.ArraySort(I, comp.sort()), 'lst')
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nt), z3.Select(a, j) == comp), patterns=[z3.Select(a, j)]))
            arrs.append(a)
        return self.symlist([nt] + arrs, s)
    def pure_value(self, f, binders, dom):
        """merged value of f() for every binder value in dom; splits on raising"""
        def g():
            if not self.decide(dom): raise PathEnd('outside domain')
            return f()
        res = self.pure(g, binders)
        excs = [(c, o[1]) for c, o in res if o[0] == 'exc']
        vals = [(c, o[1]) for c, o in res if o[0] == 'val']
        for c, e in excs:
            q = z3.Exists(binders, z3.And(dom, c))
            if self.decide(q): raise e
        if not vals: raise PathEnd('no value')
        return self.merge(vals), None
    def merge(self, vals):
        if len(vals) == 1: return vals[0][1]
        first = vals[0][1]
        if all(v is first or (type(v) is type(first) and isinstance(v, (bool, int, str, Fraction)) and v == first) for _, v in vals): return first
        if all(is_boolv(v) for _, v in vals):
            t = tbool(vals[-1][1])
            for c, v in reversed(vals[:-1]): t = z3.If(c, tbool(v), t)
            return Sym(z3.simplify(t), BOOL)
        s = BOT
        for _, v in vals: s = join(s, self.shape_of(v))
        comps = self.pack(vals[-1][1], s)
        for c, v in reversed(vals[:-1]):
            comps = [z3.If(c, a, b) for a, b in zip(self.pack(v, s), comps)]
        return s.unpack(self, comps)
    # dictionaries
    def dict_find(self, d, k):
        for p in d.cell.items:
            if self.decide(self.eq(p[0], k)): return p
        return None
    def dict_get(self, d, k, default=None, missing='KeyError'):
        if isinstance(k, VOpt): k = self.force(k)
        if d.cell.items is not None:
            p = self.dict_find(d, k)
            if p is not None: return p[1]
        elif isinstance(d.cell.shape.k, BotS): pass
        else:
            kt = self.keyterm(d, k)
            if self.decide(z3.Select(d.cell.comps[0], kt)):
                return self.elem_of(d.cell, kt, 1, d.cell.shape.v)
        if missing is None: return default
        if d.default is not None:
            v = self.call(d.default, [], {})
            self.dict_set(d, k, v)
            return self.dict_get(d, k) if d.cell.items is None else v
        self.raise_(missing, k)
    def dict_set(self, d, k, v):
        c = d.cell
        if isinstance(k, VOpt): k = self.force(k)
        if c.items is not None:
            p = self.dict_find(d, k)
            self.note_write(c)
            if p is not None: p[1] = v
            else: c.items.append([k, v])
            return
        s = c.shape
        js = DictS(join(s.k, self.shape_of(k)), join(s.v, self.shape_of(v)))
        if js != s: self.widen(d, js)
        kt = self.keyterm(d, k)
        vt = self.pack(v, c.shape.v)
        self.stale_views(c)
        cs = c.comps
        c.setc(self, [z3.Store(cs[0], kt, z3.BoolVal(True))] + [z3.Store(a, kt, t) for a, t in zip(cs[1:], vt)])
        self.relink(v, c, kt, 1, c.shape.v)
    def dict_del(self, d, k):
        c = d.cell
        if c.items is not None:
            p = self.dict_find(d, k)
            if p is None: self.raise_('KeyError', k)
            self.note_write(c); c.items.remove(p); return
        kt = self.keyterm(d, k)
        if not self.decide(z3.Select(c.comps[0], kt)): self.raise_('KeyError', k)
        self.stale_views(c)
        cs = c.comps
        c.setc(self, [z3.Store(cs[0], kt, z3.BoolVal(False))] + cs[1:])
    def list_del(self, v, i):
        c = v.cell
        i = self.list_index(v, i)
        if c.items is not None and isinstance(i, int):
            self.note_write(c); return c.items.pop(i)
        if c.items is not None: self.make_sym(v)
        it = self.term(i, INT); n = c.comps[0]
        el = c.shape.elem.unpack(self, [z3.Select(a, it) for a in c.comps[1:]])
        self.stale_views(c)
        if z3.eq(z3.simplify(it), z3.simplify(n - 1)):
            c.setc(self, [z3.simplify(n - 1)] + c.comps[1:]); return el
        arrs = []
        j = z3.Int(self.fresh_name('dj'))
        for a in c.comps[1:]:
            b = self.fresh_term(a.sort(), 'del')
            self.assume(z3.ForAll([j], z3.Select(b, j) == z3.If(j < it, z3.Select(a, j), z3.Select(a, j + 1)), patterns=[z3.Select(b, j)]))
            self.assume(z3.ForAll([j], z3.If(j < it, z3.Select(b, j) == z3.Select(a, j), z3.Implies(j > it, z3.Select(b, j - 1) == z3.Select(a, j))), patterns=[z3.Select(a, j)]))
            arrs.append(b)
        c.setc(self, [z3.simplify(n - 1)] + arrs)
        return el
    def make_sym(self, v):
        self.symbolize(v, self.shape_of(v))
    def concat_lists(self, a, b):
        if a.cell.items is not None and b.cell.items is not None:
            return self.mklist(a.cell.items + b.cell.items)
        s = join(self.shape_of(a), self.shape_of(b))
        ca, cb = self.list_comps(a, s), self.list_comps(b, s)
        if b.cell.items is not None and len(b.cell.items) <= 4:
            r = self.symlist(ca, s.elem)
            for x in b.cell.items: self.list_append(r, x)
            return r
        na, nb = ca[0], cb[0]
        arrs = []; j = z3.Int(self.fresh_name('cj'))
        for x, y in zip(ca[1:], cb[1:]):
            z = self.fresh_term(x.sort(), 'cat')
            self.assume(z3.ForAll([j], z3.Select(z, j) == z3.If(j < na, z3.Select(x, j), z3.Select(y, j - na)), patterns=[z3.Select(z, j)]))
            arrs.append(z)
        return self.symlist([z3.simplify(na + nb)] + arrs, s.elem)
    def list_replace(self, v, w):
        """v[:] = w (content of w moves into v's cell)"""
        c = v.cell
        if w.cell.items is not None and not isinstance(c, ViewCell):
            self.note_write(c); c.items = list(w.cell.items); c._comps = None; return
        if isinstance(c, ViewCell):
            c.setc(self, self.pack(w, c.shape)); return
        c.setc(self, w.cell.comps, w.cell.shape)
    def list_slice(self, v, lo, hi, step=1):
        n = self.length(v)
        if step != 1:
            if not isinstance(step, int) or isinstance(step, bool) or step < 2: raise Unsupported('slice step')
            v = self.list_slice(v, lo, hi)
            if v.cell.items is not None: return self.mklist(v.cell.items[::step])
            m = v.cell.comps[0]; arrs = []; j = z3.Int(self.fresh_name('sj'))
            for a in v.cell.comps[1:]:
                z = self.fresh_term(a.sort(), 'slc')
                self.assume(z3.ForAll([j], z3.Select(z, j) == z3.Select(a, step * j), patterns=[z3.Select(z, j)])); arrs.append(z)
            c = z3.simplify((m + (step - 1)) / step)
            return self.symlist([c] + arrs, v.cell.shape.elem)
        if v.cell.items is not None and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return self.mklist(v.cell.items[lo:hi])
        if v.cell.items is not None:
            v2 = VList(self.newcell('list', items=list(v.cell.items))); self.make_sym(v2); v = v2
        nt = self.term(n, INT)
        def clamp(x, dflt):
            if x is None: return dflt
            x = self.force(x)
            if x is None: return dflt
            t = self.term(x, INT)
            t = z3.If(t < 0, z3.If(t + nt < 0, z3.IntVal(0), t + nt), z3.If(t > nt, nt, t))
            return z3.simplify(t)
        l, h = clamp(lo, z3.IntVal(0)), clamp(hi, nt)
        m = z3.simplify(z3.If(h > l, h - l, z3.IntVal(0)))
        if z3.eq(l, z3.IntVal(0)):
            return self.symlist([m] + v.cell.comps[1:], v.cell.shape.elem)
        arrs = []; j = z3.Int(self.fresh_name('sj'))
        for a in v.cell.comps[1:]:
            z = self.fresh_term(a.sort(), 'slc')
            self.assume(z3.ForAll([j], z3.Select(z, j) == z3.Select(a, j + l), patterns=[z3.Select(z, j)])); arrs.append(z)
        return self.symlist([m] + arrs, v.cell.shape.elem)

class ModVars(dict):
    def __init__(self, vc, m): super().__init__(); self.vc, self.m = vc, m
    def __contains__(self, k): return k in self.m.defs or k in ('__name__', '__file__')
    def __getitem__(self, k): return self.vc.modattr(self.m, k)
