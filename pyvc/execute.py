"""pyvc: statements, expressions, calls and loops."""
import ast, string as _string
from .interp import *
from .interp import _load

CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}
def const_term(t): return z3.is_rational_value(z3.simplify(t))
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}

class _Args(list):
    """arguments of a modelled call, which remember the ones that were looked at"""
    __slots__ = ('seen',)
    def _all(self): self.seen.update(range(len(self)))
    def __getitem__(self, i):
        if isinstance(i, slice): self.seen.update(range(len(self))[i])
        else: self.seen.add(i if i >= 0 else i + len(self))
        return list.__getitem__(self, i)
    def __iter__(self): self._all(); return list.__iter__(self)
    def __eq__(self, o): self._all(); return list.__eq__(self, o)
    def __ne__(self, o): self._all(); return list.__ne__(self, o)
    def __add__(self, o): self._all(); return list(self) + list(o)
    def __radd__(self, o): self._all(); return list(o) + list(self)
class _Kw(dict):
    __slots__ = ('seen',)
    def _all(self): self.seen.update(dict.keys(self))
    def __getitem__(self, k): self.seen.add(k); return dict.__getitem__(self, k)
    def __contains__(self, k): self.seen.add(k); return dict.__contains__(self, k)
    def get(self, k, d=None): self.seen.add(k); return dict.get(self, k, d)
    def pop(self, k, *d): self.seen.add(k); return dict.pop(self, k, *d)
    def __iter__(self): self._all(); return dict.__iter__(self)
    def keys(self): self._all(); return dict.keys(self)
    def items(self): self._all(); return dict.items(self)
    def values(self): self._all(); return dict.values(self)
    def __eq__(self, o): self._all(); return dict.__eq__(self, o)
    def __ne__(self, o): self._all(); return dict.__ne__(self, o)
# their arguments do not matter, or are defaults that are read only when needed
FREE = {'warnings.warn', 'warn', 'print', 'builtins.print', '__exit__', 'builtins.next', 'next', 'dict.pop', 'dict.get', 'dict.setdefault', 'builtins.getattr', 'getattr', 'resource.getrusage'}
def guarded(ex, name, f, args, kw, skip=0):
    """a model of a library function must look at every argument the code passes: an option it does not know is outside its contract"""
    if name in FREE: return f(ex, args, kw)
    a, k = _Args(args), _Kw(kw or {}); a.seen, k.seen = set(range(skip)), set()
    r = f(ex, a, k)
    if len(a.seen) < list.__len__(a) or set(dict.keys(k)) - k.seen:
        raise Unsupported('%s with arguments that its contract does not read: %s' % (name, [i for i in range(list.__len__(a)) if i not in a.seen] + sorted(set(dict.keys(k)) - k.seen)))
    return r

class LoopCtx:
    """what an invariant may mention: the iteration number k, the sequence, entry and current state"""
    def __init__(self, ex, key, info, seq, node, frame):
        self.ex, self.key, self.info, self.seq, self.node, self.frame = ex, key, info, seq, node, frame
        self.birth = ex.tick(); self.k = z3.IntVal(0); self.entry = {}; self.labels = []
        self.n = None
    def cur(self, l): return self.ex.loc_get(l)
    def items(self):
        """(label, entry value, current value) of every location the loop modifies"""
        for l in self.labels: yield l, self.entry[l], self.cur(l)

class Exec(VC):
    # ------------------------------------------------------------ locations
    def loc_get(self, l):
        if l[0] == 'v': return self.reg[('fr', l[1])].vars.get(l[2], UNBOUND)
        if l[0] == 'it': return self.reg[('it', l[1])].posn
        if l[0] == 'a':
            o = self.reg[('ob', l[1])]; return o.attrs.get(l[2], UNBOUND)
        if l[0] == 'fld': return ('comps', self.fieldcells[l[1:]])
        if l[0] == 'gh': return self.ghosts[l[1]]
        c = self.reg[l]
        return {'list': VList, 'dict': VDict, 'set': VSet}[c.kind](c)
    def loc_shape(self, l):
        if l[0] == 'fld': return self.field_shape(*l[1:])
        v = self.loc_get(l)
        if v is UNBOUND: return None
        return self.shape_of(v)
    def loc_set(self, l, shape, comps):
        if l[0] == 'fld': self.fieldcells[l[1:]] = list(comps); return
        if l[0] in ('v', 'it', 'a', 'gh'):
            v = shape.unpack(self, comps)
            if l[0] == 'v': self.reg[('fr', l[1])].vars[l[2]] = v
            elif l[0] == 'it': self.reg[('it', l[1])].posn = v
            elif l[0] == 'gh': self.ghosts[l[1]] = v
            else: self.reg[('ob', l[1])].attrs[l[2]] = v
            return
        c = self.reg[l]
        if c.items is not None:
            v = {'list': VList, 'dict': VDict, 'set': VSet}[c.kind](c)
            self.symbolize(v, shape)
        c._comps = list(comps); c.shape = shape; c.enum = None
        for w in c.views: w.stale = True
        c.views = []
    def field_shape(self, cls, f):
        d = self.classes[cls]
        return d['fields'][f]
    def field_cell(self, cls, f):
        """component arrays (Ref -> value) of a field of a modelled class"""
        if (cls, f) not in self.fieldcells:
            sh = self.field_shape(cls, f)
            self.fieldcells[(cls, f)] = [z3.Const('fld!%s.%s!%d' % (cls, f, i), z3.ArraySort(S_REF, s)) for i, s in enumerate(sh.sorts())]
            if isinstance(sh, ListS):
                r = z3.Const('wfr', S_REF); a = self.fieldcells[(cls, f)][0]
                self.assume_top(z3.ForAll([r], z3.Select(a, r) >= 0, patterns=[z3.Select(a, r)]))
        return self.fieldcells[(cls, f)]
    def assume_top(self, c):
        self.solver.add(c); self.asserted.append(c)
        if self.binders: self.facts.append(c)
    def field_owner(self, cls, name):
        c = cls
        while c is not None:
            d = self.classes.get(c)
            if d is None: return None
            if name in d['fields']: return c
            c = d.get('base')
        return None
    def field_get(self, ref, cls, name):
        comps = self.field_cell(cls, name); sh = self.field_shape(cls, name)
        if isinstance(sh, (ListS, DictS, SetS)):
            vc = ViewCell(self, {ListS: 'list', DictS: 'dict', SetS: 'set'}[type(sh)], FieldParent(self, cls, name), ref.t, 0, sh)
            return {ListS: VList, DictS: VDict, SetS: VSet}[type(sh)](vc)
        return sh.unpack(self, [z3.Select(a, ref.t) for a in comps])
    def field_set(self, ref, cls, name, v):
        comps = self.field_cell(cls, name); sh = self.field_shape(cls, name)
        vt = self.pack(v, sh)
        if self.purity: raise SideEffect('field write in a pure context')
        self.loop_write(0, ('fld', cls, name))
        self.fieldcells[(cls, name)] = [z3.Store(a, ref.t, t) for a, t in zip(comps, vt)]
        if isinstance(v, (VList, VDict, VSet)) and not isinstance(v.cell, ViewCell):
            v.cell = ViewCell(self, v.cell.kind, FieldParent(self, cls, name), ref.t, 0, sh)

    # ------------------------------------------------------------ ghosts
    ghosts = None
    def ghost_set(self, name, v):
        if self.purity: raise SideEffect('ghost update in a pure context')
        self.loop_write(0, ('gh', name)); self.ghosts[name] = v
    def reset(self):
        self.ghosts = {}
        super().reset()

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Builtin): return guarded(self, f.name, f.f, args, kw)
        if isinstance(f, VBound):
            return self.call_func(f.func, [f.self_val] + list(args), kw) if isinstance(f.func, VFunc) else guarded(self, f.func.name, f.func.f, [f.self_val] + list(args), kw, 1) if isinstance(f.func, Builtin) else self.call(f.func, [f.self_val] + list(args), kw)
        if isinstance(f, VFunc): return self.call_func(f, args, kw)
        if isinstance(f, VClass): return self.instantiate(f, args, kw)
        if isinstance(f, PyType): return self.call_type(f, args, kw)
        if isinstance(f, Ext): return f.py_call(self, args, kw)
        if isinstance(f, PyObj):
            m = self.class_lookup(f.cls, '__call__')
            if m: return self.call(VBound(m, f), args, kw)
        if isinstance(f, ModRef):
            if f.name in self.specs: return self.specs[f.name](self, args, kw)
            raise Unsupported('call of unmodelled %s' % f.name)
        if f is None: self.raise_('TypeError', 'NoneType not callable')
        if isinstance(f, VOpt): return self.call(self.force(f), args, kw)
        raise Unsupported('call of %r' % (f,))
    def call_func(self, f, args, kw):
        if f.qual in self.specs and f.qual not in getattr(self, 'under_proof', ()):
            self.specced.add(f.qual)
            return self.specs[f.qual](self, args, kw)
        if f.kind == 'unsupported-decorator': raise Unsupported('decorator on ' + f.qual)
        if len(self.callstack) > 60: raise Unsupported('call depth (recursion needs a contract): ' + f.qual)
        self.inlined.add(f.qual)
        fr = Frame(self, f.closure, f.module, f, f.cls)
        self.bind(f, fr, args, kw)
        if f.cls is not None and args: fr.self_val = args[0]
        body = f.node.body
        if isinstance(f.node, ast.Lambda):
            return self.eval(body, fr)
        gen = is_generator(f.node)
        if gen: fr.yields = self.mklist()
        self.callstack.append((f.qual, getattr(self, 'curpos', None)))
        sp = getattr(self, 'curpos', None)
        try:
            self.block(body, fr); r = None
        except ReturnE as e: r = e.v
        finally: self.callstack.pop(); self.curpos = sp
        if gen: return VIter(self, self.seqof(fr.yields))
        return r
    def bind(self, f, fr, args, kw):
        a = f.node.args; kw = dict(kw); args = list(args)
        pos = [x.arg for x in a.posonlyargs + a.args]
        dflt_env = f.closure or Frame(self, None, f.module, label=('dflt', f.qual))
        defaults = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        for i, n in enumerate(pos):
            if i < len(args):
                if n in kw: self.raise_('TypeError', 'multiple values')
                fr.vars[n] = args[i]
            elif n in kw: fr.vars[n] = kw.pop(n)
            elif defaults[i] is not None: fr.vars[n] = self.eval(defaults[i], self.defenv(f))
            else: self.raise_('TypeError', 'missing argument %s of %s' % (n, f.qual))
        if len(args) > len(pos):
            if not a.vararg: self.raise_('TypeError', 'too many arguments for ' + f.qual)
            fr.vars[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg: fr.vars[a.vararg.arg] = ()
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw: fr.vars[x.arg] = kw.pop(x.arg)
            elif d is not None: fr.vars[x.arg] = self.eval(d, self.defenv(f))
            else: self.raise_('TypeError', 'missing kwarg')
        if a.kwarg: fr.vars[a.kwarg.arg] = self.mkdict([[k, v] for k, v in kw.items()])
        elif kw: self.raise_('TypeError', 'unexpected keyword %s of %s' % (list(kw), f.qual))
    def defenv(self, f):
        if f.closure is not None: return f.closure
        fr = Frame(self, None, f.module, label=('dflt', f.qual)); fr.vars = ModVars(self, f.module); return fr
    def instantiate(self, c, args, kw):
        if c.qual in self.specs: return self.specs[c.qual](self, args, kw)
        names = c.excnames()
        if names & {'Exception', 'BaseException'}:
            return VExc(c, tuple(args))
        o = PyObj(self, c)
        init = self.class_lookup(c, '__init__')
        if init is not None: self.call(VBound(init, o), args, kw)
        elif args or kw: self.raise_('TypeError', 'no __init__')
        return o
    def call_type(self, f, args, kw):
        t = f.t
        if isinstance(t, type) and issubclass(t, BaseException): return VExc(EXC_ALIAS.get(t.__name__, t.__name__), tuple(args))
        h = self.lib.get('type.' + t.__name__)
        if h: return guarded(self, t.__name__, h, args, kw)
        raise Unsupported('constructor %s' % t.__name__)

    # ------------------------------------------------------------ attributes
    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            c = self.frame_class(fr)
            if c is not None: return c
        return None
    def frame_class(self, fr):
        while fr is not None:
            if fr.cls is not None: return fr.cls
            fr = fr.parent
        return None
    def getattr(self, o, name, fr=None):
        if isinstance(o, VOpt) or isinstance(o, Sym) and o.s == PV:
            o = self.force(o)
        if isinstance(o, PyObj):
            if name == '__class__': return o.attrs.get('__class__', o.cls)
            if name == '__dict__': raise Unsupported('__dict__')
            if name in o.attrs:
                v = o.attrs[name]
                if v is UNBOUND: self.raise_('AttributeError', name)
                return v
            if o.cls is not None:
                v = self.class_lookup(o.cls, name)
                if v is not None: return self.bindattr(v, o, o.cls)
                ga = self.class_lookup(o.cls, '__getattr__')
                if ga is not None and not name.startswith('__'):
                    return self.call(VBound(ga, o), [name], {})
                if name in o.cls.attrs: return None
            self.raise_('AttributeError', name)
        if isinstance(o, VRef):
            ow = self.field_owner(o.cls, name)
            if ow: return self.field_get(o, ow, name)
            c = o.cls
            while c is not None:
                d = self.classes.get(c, {})
                if name in d.get('methods', {}): return VBound(Builtin(name, d['methods'][name]), o)
                if d.get('src') is not None:
                    v = self.class_lookup(d['src'], name)
                    if v is not None: return self.bindattr(v, o, None)
                c = d.get('base')
            if name == '__class__': return VClassOf(o)
            raise Unsupported('attribute %s of modelled class %s' % (name, o.cls))
        if isinstance(o, VClassOf):
            return o.get(self, name)
        if isinstance(o, VClass):
            v = self.class_lookup(o, name)
            if v is not None:
                if isinstance(v, VFunc) and v.kind == 'class': return VBound(v, o)
                return v
            if name == '__name__': return o.name
            for c in o.mro():
                if name in c.attrs: return self.classattr(c, name)
            self.raise_('AttributeError', name)
        if isinstance(o, ModRef):
            full = o.name + '.' + name
            if full in self.specs: return Builtin(full, self.specs[full])
            if full in self.lib: return self.libval(full)
            p = os.path.join(self.repo, *o.name.split('.'))
            if os.path.exists(p + '.py') or os.path.exists(os.path.join(p, '__init__.py')):
                m = self.module(o.name)
                if name in m.defs: return self.modattr(m, name)
            return ModRef(full)
        if isinstance(o, SuperV):
            mro = o.self_cls(self).mro()
            i = mro.index(o.cls) if o.cls in mro else len(mro)      # a base outside the repository comes after all of them
            for c in mro[i+1:]:
                if name in c.attrs: return self.bindattr(self.classattr(c, name), o.self_val, o.cls)
            key = 'super.' + name
            if key in self.specs: return VBound(Builtin(key, self.specs[key]), o.self_val)
            if name == '__init__': return Builtin('object.__init__', lambda ex, a, k: None)
            if name == '__getattribute__': return Builtin('object.__getattribute__', lambda ex, a, k: ex.raise_('AttributeError', *a))
            raise Unsupported('super().%s' % name)
        if isinstance(o, Ext): return o.py_getattr(self, name)
        if isinstance(o, VExc):
            if name == 'args': return tuple(o.args)
            if name in o.attrs: return o.attrs[name]
            raise Unsupported('attribute %s of exception' % name)
        if isinstance(o, VFunc) and name in ('__name__',): return o.name
        if isinstance(o, (VFunc, VBound, Builtin)) and name == '__call__': return o
        if isinstance(o, (VFunc, VBound)): self.raise_('AttributeError', name)
        if o is None: self.raise_('AttributeError', 'NoneType.' + name)
        m = self.lib.get('method')
        r = m(self, o, name)
        if r is not None: return r
        if isinstance(o, (bool, int, str, Fraction, tuple, Sym, VList, VDict, VSet)): self.raise_('AttributeError', name)
        raise Unsupported('attribute %s of %r' % (name, o))
    def bindattr(self, v, o, cls):
        if isinstance(v, VFunc):
            if v.kind == 'static': return v
            if v.kind == 'class': return VBound(v, o.cls if isinstance(o, PyObj) else VClassOf(o))
            if v.kind == 'prop': return self.call(VBound(v, o), [], {})
            return VBound(v, o)
        if isinstance(v, Builtin) and getattr(v, 'method', False): return VBound(v, o)
        return v
    def hasattr_(self, o, name):
        try: self.getattr(o, name); return True
        except PyRaise as e:
            if self.exc_matches(e.exc, PyType(AttributeError)): return False
            raise
    def setattr(self, o, name, v):
        if isinstance(o, VOpt): o = self.force(o)
        if isinstance(o, (PyObj,)):
            if o.cls is not None:
                p = self.class_lookup(o.cls, name)
                if isinstance(p, VFunc) and p.kind == 'prop': raise Unsupported('property setter')
            if self.purity and o.birth < self.purity[-1]: raise SideEffect('attribute write in a pure context')
            self.loop_write(o.birth, ('a', o.label, name))
            o.attrs[name] = v; return
        if isinstance(o, VRef):
            ow = self.field_owner(o.cls, name)
            if ow: return self.field_set(o, ow, name, v)
            raise Unsupported('write of undeclared field %s.%s' % (o.cls, name))
        if isinstance(o, Ext): return o.py_setattr(self, name, v)
        if isinstance(o, VExc): o.attrs[name] = v; return
        raise Unsupported('setattr on %r' % (o,))

    # ------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if v is UNBOUND: 
                    if not isinstance(f.vars, ModVars): raise Unsupported('possibly unbound variable ' + name)
                return v
            f = f.parent
        if name in fr.module.defs:
            if fr.module.name + '.' + name in self.specs: pass
            return self.modattr(fr.module, name)
        if name in ('__name__', '__file__'): return self.modattr(fr.module, name)
        b = self.builtin(name)
        if b is None and name != 'None': raise Unsupported('unknown name ' + name)
        return b
    def assign_name(self, name, v, fr):
        if name in fr.globals_decl: raise Unsupported('global assignment')
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.vars: f = f.parent
            if f is None: raise Unsupported('nonlocal')
            fr = f
        if isinstance(fr.vars, ModVars): raise Unsupported('module assignment')
        if self.purity and fr.birth < self.purity[-1]: raise SideEffect('assignment in a pure context')
        self.loop_write(fr.birth, ('v', fr.label, name))
        fr.vars[name] = v

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body: self.stmt(st, fr)
    def stmt(self, st, fr):
        self.curpos = (fr.module.name, st.lineno, st.col_offset)
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None: raise Unsupported('statement ' + type(st).__name__)
        m(st, fr)
    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant): return
        if isinstance(st.value, ast.Yield): self.do_yield(st.value, fr); return
        if isinstance(st.value, ast.YieldFrom):
            f = self.yframe(fr)
            for x in self.need_items(self.eval(st.value.value, fr)): self.list_append(f.yields, x)
            return
        self.eval(st.value, fr)
    def yframe(self, fr):
        while fr.yields is None: fr = fr.parent
        return fr
    def do_yield(self, e, fr):
        self.list_append(self.yframe(fr).yields, self.eval(e.value, fr) if e.value else None)
    def s_Pass(self, st, fr): pass
    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets: self.assign(t, v, fr)
    def s_AnnAssign(self, st, fr):
        if st.value is not None: self.assign(st.target, self.eval(st.value, fr), fr)
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name): self.assign_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr); self.setattr(o, self.attrname(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr); self.setitem(o, t.slice, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            v = self.force(v)
            items = list(v) if isinstance(v, tuple) else self.unpack_items(v, None if star else len(t.elts))
            if star:
                i = star[0]; after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1: self.raise_('ValueError', 'not enough values to unpack')
                parts = items[:i] + [self.mklist(items[i:len(items)-after])] + items[len(items)-after:]
                for x, y in zip(t.elts, parts): self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
            else:
                if len(items) != len(t.elts): self.raise_('ValueError', 'wrong number of values to unpack')
                for x, y in zip(t.elts, items): self.assign(x, y, fr)
        else: raise Unsupported('assignment target')
    def unpack_items(self, v, n):
        seq = self.seqof(v); it = self.seq_items(seq)
        if it is not None: return it
        if n is None: raise Unsupported('starred unpack of symbolic sequence')
        if self.decide(self.term(self.length(seq), INT) == n): return [seq.get(z3.IntVal(i)) for i in range(n)]
        self.raise_('ValueError', 'wrong number of values to unpack')
    def attrname(self, name, fr):
        # private names: attributes of one class hierarchy; kept unmangled (no clash in this code base)
        return name
    def s_AugAssign(self, st, fr):
        t = st.target; op = OPS[type(st.op)]
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            new = self.augop(op, old, self.eval(st.value, fr)); self.assign_name(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr); n = self.attrname(t.attr, fr)
            new = self.augop(op, self.getattr(o, n), self.eval(st.value, fr)); self.setattr(o, n, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr); k = self.slice_key(t.slice, fr)
            old = self.getitem(o, k)
            new = self.augop(op, old, self.eval(st.value, fr)); self.setitem_k(o, k, new)
        else: raise Unsupported('augmented assignment target')
    def augop(self, op, a, b):
        if isinstance(a, VList) and op == '+':
            seqb = self.seqof(b)
            self.lib['list.extend'](self, a, seqb); return a
        if isinstance(a, VSet) and op in '|&-':
            r = self.binop(op, a, b); a.cell.setc(self, self.set_comps(r, self.shape_of(r)), self.shape_of(r)) if r.cell.items is None else self.set_items(a, r.cell.items); return a
        if isinstance(a, Ext) and hasattr(a, 'py_augop'): return a.py_augop(self, op, b)
        return self.binop(op, a, b)
    def set_items(self, a, items):
        self.note_write(a.cell); a.cell.items = list(items)
    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.loop_write(fr.birth, ('v', fr.label, t.id)); fr.vars[t.id] = UNBOUND
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                if isinstance(o, VOpt): o = self.force(o)
                if isinstance(o, Ext): o.py_delitem(self, self.slice_key(t.slice, fr)); continue
                k = self.slice_key(t.slice, fr)
                if isinstance(k, slice): raise Unsupported('del slice')
                if isinstance(o, VDict): self.dict_del(o, k)
                elif isinstance(o, VList): self.list_del(o, k)
                else: raise Unsupported('del item')
            else: raise Unsupported('del')
    def s_If(self, st, fr):
        if self.cond(self.eval(st.test, fr)): self.block(st.body, fr)
        else: self.block(st.orelse, fr)
    def s_Return(self, st, fr): raise ReturnE(self.eval(st.value, fr) if st.value else None)
    def s_Break(self, st, fr): raise BreakE()
    def s_Continue(self, st, fr): raise ContinueE()
    def s_Global(self, st, fr): fr.globals_decl |= set(st.names)
    def s_Nonlocal(self, st, fr): fr.nonlocals |= set(st.names)
    def s_Import(self, st, fr):
        for a in st.names: self.assign_name(a.asname or a.name.split('.')[0], ModRef(a.name if a.asname else a.name.split('.')[0]), fr)
    def s_ImportFrom(self, st, fr):
        for a in st.names: self.assign_name(a.asname or a.name, self.import_from(st.module, a.name, fr.module, st.level), fr)
    def s_FunctionDef(self, st, fr):
        f = self.mkfunc(st, fr, fr.module, (fr.func.qual if fr.func else '') + '.<locals>.' + st.name)
        self.assign_name(st.name, f, fr)
    def s_Assert(self, st, fr):
        if not self.cond(self.eval(st.test, fr)): self.raise_('AssertionError')
    def s_Raise(self, st, fr):
        if st.exc is None:
            raise PyRaise(self.handling[-1])
        e = self.eval(st.exc, fr)
        if isinstance(e, VClass): e = VExc(e)
        if isinstance(e, PyType): e = VExc(EXC_ALIAS.get(e.name, e.name))
        if not isinstance(e, VExc): raise Unsupported('raise %r' % (e,))
        raise PyRaise(e)
    handling = ()
    def s_Try(self, st, fr):
        try:
            try:
                self.block(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    ht = self.eval(h.type, fr) if h.type else None
                    if self.exc_matches(e.exc, ht):
                        if h.name: self.assign_name(h.name, e.exc, fr)
                        self.handling = list(self.handling) + [e.exc]
                        try: self.block(h.body, fr)
                        finally: self.handling = self.handling[:-1]
                        break
                else: raise
            else:
                self.block(st.orelse, fr)
        except (PyRaise, ReturnE, BreakE, ContinueE):
            self.block(st.finalbody, fr); raise
        self.block(st.finalbody, fr)
    def s_With(self, st, fr):
        self.with_items(st.items, st.body, fr)
    def with_items(self, items, body, fr):
        if not items: return self.block(body, fr)
        it = items[0]
        cm = self.eval(it.context_expr, fr)
        enter = self.getattr(cm, '__enter__'); exit_ = self.getattr(cm, '__exit__')
        v = self.call(enter, [], {})
        if it.optional_vars is not None: self.assign(it.optional_vars, v, fr)
        try: self.with_items(items[1:], body, fr)
        except PyRaise as e:
            if self.cond(self.call(exit_, [PyType(Exception), e.exc, None], {})): return
            raise
        except (ReturnE, BreakE, ContinueE):
            self.call(exit_, [None, None, None], {}); raise
        self.call(exit_, [None, None, None], {})

    # ------------------------------------------------------------ loops
    def s_For(self, st, fr):
        it = self.eval(st.iter, fr)
        seq = self.seqof(it)
        if isinstance(seq, VIter):
            return self.for_iter(st, fr, seq)
        items = self.seq_items(seq) if not (isinstance(it, VList) and it.cell.items is None) else self.seq_items(seq)
        if items is not None and len(items) > self.unroll_for:
            l = VList(self.newcell('list', items=list(items)))      # long: a loop like any other
            self.make_sym(l); seq = self.seqof(l); items = None
        if items is not None:
            try:
                for x in items:
                    self.assign(st.target, x, fr)
                    try: self.block(st.body, fr)
                    except ContinueE: pass
            except BreakE: return
            self.block(st.orelse, fr); return
        self.cut(st, fr, seq)
    def for_iter(self, st, fr, it):
        if isinstance(it.posn, int) and it.seq.items is not None:
            try:
                while it.posn < len(it.seq.items):
                    x = it.seq.items[it.posn]; it.posn += 1
                    self.assign(st.target, x, fr)
                    try: self.block(st.body, fr)
                    except ContinueE: pass
            except BreakE: return
            self.block(st.orelse, fr); return
        rest = self.iter_rest(it)
        self.cut(st, fr, rest)
    UNROLL = 40
    unroll_for = 1000
    def s_While(self, st, fr):
        # loops with concrete conditions are unrolled; everything else is cut at an invariant
        key = self.loop_key(st)
        if key not in self.loopinfo:
            n = 0
            try:
                while True:
                    snap = len(self.trail), self.pos
                    t = self.truth(self.eval(st.test, fr))
                    if isinstance(t, bool) or z3.is_true(z3.simplify(tbool(t))) or z3.is_false(z3.simplify(tbool(t))):
                        c = t if isinstance(t, bool) else z3.is_true(z3.simplify(tbool(t)))
                        if not c: self.block(st.orelse, fr); return
                        if isinstance(st.test, ast.Constant) or self.pos != snap[1]:
                            break
                        n += 1
                        if n > self.UNROLL: break
                        try: self.block(st.body, fr)
                        except ContinueE: pass
                    else: break
            except BreakE: return
            self.loopinfo[key] = LoopInfo()
            raise Restart('cut %r' % (key,))
        self.cut(st, fr, None)
    def loop_key(self, st):
        return (tuple(q for q, _ in self.callstack), self.curpos_of(st))
    def curpos_of(self, st): return (st.lineno, st.col_offset)
    def cut(self, st, fr, seq):
        if self.purity: raise SideEffect('unbounded loop in a pure context')
        key = self.loop_key(st)
        info = self.loopinfo.setdefault(key, LoopInfo())
        ctx = LoopCtx(self, key, info, seq, st, fr); info.depth = len(self.loops)
        ctx.guard = len(self.loops); strong = True
        if seq is not None: ctx.n = self.term(self.length(seq), INT)
        # entry state
        for l in list(info.mod):
            if l[0] in ('c',) and l not in self.reg: continue
            if l[0] == 'v' and ('fr', l[1]) not in self.reg: continue
            if l[0] == 'it' and ('it', l[1]) not in self.reg: continue
            if l[0] == 'a' and ('ob', l[1]) not in self.reg: continue
            sh = info.mod[l]; cur = self.loc_shape(l)
            if l[0] == 'fld': info.mod[l] = cur; self.field_cell(l[1], l[2])
            elif cur is not None:
                j = cur if sh is None else join(sh, cur)
                if j != sh: info.mod[l] = j
            if info.mod[l] is None:   # unbound before the loop
                continue
            if isinstance(info.mod[l], (DictS, SetS)) and isinstance(info.mod[l].k if isinstance(info.mod[l], DictS) else info.mod[l].elem, BotS):
                strong = False; continue        # still empty: an iteration that fills it restarts the analysis with its shape
            ctx.labels.append(l)
            v = self.loc_get(l)
            ctx.entry[l] = ('comps', list(v[1])) if isinstance(v, tuple) and v and v[0] == 'comps' else (UNBOUND if v is UNBOUND else self.detach(v))
        if seq is not None and isinstance(seq.what, VList) and (seq.what.cell.label in ctx.labels or isinstance(seq.what.cell, ViewCell)):
            if seq.what.cell.label in ctx.labels or any(l[0] == 'fld' for l in ctx.labels): raise Unsupported('a list is modified while it is iterated over')
        itd = getattr(seq, 'dict', None) if seq is not None else None
        if itd is not None and itd.cell.label not in ctx.labels: itd = None
        for l in ctx.labels:
            if l[0] in ('c',):   # containers switch to symbolic form
                c = self.reg[l]
                if c.items is not None or c.shape != info.mod[l]:
                    v = self.loc_get(l); comps = self.pack(v, info.mod[l])
                    if c.items is not None: self.symbolize(v, info.mod[l])
                    else: c._comps = comps; c.shape = info.mod[l]
            elif l[0] in ('v', 'a', 'it', 'gh') and ctx.entry[l] is not UNBOUND:
                v = self.loc_get(l)
                if not isinstance(info.mod[l], ConstS) and self.shape_of(v) != info.mod[l]:
                    self.loc_set(l, info.mod[l], self.pack(v, info.mod[l]))
        cands = self.candidates(ctx)
        # establish
        live = []
        for ck, f in cands:
            if ck in info.dropped: continue
            try: g = f(ctx)
            except (Unsupported, PyRaise, TypeError, AttributeError, ValueError, z3.Z3Exception) as e:
                g = None
                if self.log: self.log('candidate %r: %s' % (ck, e))
            if g is None: info.dropped.add(ck); continue
            ok = g is True or (g is not False and self.check_valid(g, quick=True)[0] == 'proved')
            if not ok and g is not True and g is not False and ck[0] == 'must': ok = self.check_split(g, strong)
            if not ok:
                if self.log and ck[0] == 'must': self.log('NOT ESTABLISHED %r' % (ck,)); self.explain(g)
                info.dropped.add(ck)
                continue
            live.append((ck, f))
        # arbitrary iteration
        k = self.fresh_term(I, 'k')
        ctx.k = k
        self.assume(k >= 0)
        if seq is not None: self.assume(k <= ctx.n)
        for l in ctx.labels:
            sh = info.mod[l]
            if isinstance(sh, ConstS): continue
            comps = [self.fresh_term(s, 'h_' + str(l[-1])) for s in sh.sorts()]
            self.loc_set(l, sh, comps)
            if l[0] == 'fld':
                if isinstance(sh, ListS):
                    r = z3.Const('wfr', S_REF)
                    self.assume(z3.ForAll([r], z3.Select(comps[0], r) >= 0, patterns=[z3.Select(comps[0], r)]))
            else: self.wf(sh, comps)
        for ck, f in live:
            g = f(ctx)
            if g is not True: self.assume(g)
        if itd is not None: itdom = itd.cell.comps[0]
        if seq is not None: more = self.decide(k < ctx.n)
        else:
            self.loops.append(ctx)
            try: more = self.cond(self.eval(st.test, fr))
            except PyRaise: self.loops.remove(ctx); raise
            finally:
                if ctx in self.loops: self.loops.remove(ctx)
        if not more:
            self.block(st.orelse, fr); return
        # one iteration
        self.loops.append(ctx)
        try:
            if seq is not None: self.assign(st.target, seq.get(k), fr)
            try: self.block(st.body, fr)
            except ContinueE: pass
        except BreakE:
            self.loops.remove(ctx); return
        except (ReturnE, PyRaise):
            self.loops.remove(ctx); raise
        self.loops.remove(ctx)
        # shapes are stable?
        for l in ctx.labels:
            sh = info.mod[l]; cur = self.loc_shape(l)
            if cur is None: raise Unsupported('variable deleted in loop')
            if l[0] == 'fld': continue
            j = join(sh, cur) if not (isinstance(sh, ConstS) or isinstance(cur, ConstS)) else sh
            if isinstance(sh, ConstS) and cur != sh: raise Unsupported('loop changes %r to %r' % (sh, cur))
            if j != sh: info.mod[l] = j; raise Restart('shape of %r: %r -> %r' % (l[-1], sh, j))
        for l in info.mod:
            sh = info.mod[l]
            if l[0] == 'c' and l not in ctx.labels and l in self.reg and isinstance(sh, (DictS, SetS)):
                j = join(sh, self.loc_shape(l))
                if j != sh: info.mod[l] = j; raise Restart('shape of %r: %r -> %r' % (l[-1], sh, j))
        if itd is not None and self.check_valid(itd.cell.comps[0] == itdom)[0] != 'proved': raise Unsupported('a dict changes while it is iterated over')
        ctx.k = k + 1
        bad = []
        for ck, f in live:
            try: g = f(ctx)
            except (Unsupported, PyRaise, TypeError, AttributeError, ValueError, z3.Z3Exception): g = None
            ok = g is not None and (g is True or (g is not False and self.check_valid(g, tmo=4000, quick=True)[0] == 'proved'))
            if not ok and g is not None and g is not False and ck[0] == 'must':
                ok = self.check_split(g, strong)
            if not ok:
                bad.append(ck)
                if self.log and ck[0] not in ('same', 'plusk', 'len', 'samelen', 'ge', 'ge0'): self.log('NOT PRESERVED %r: %s' % (ck, self.check_valid(g, tmo=4000, quick=True) if g is not None and g is not False else g)); self.explain(g)
        if bad:
            if not self.feasible(): raise PathEnd('infeasible')
            weak = [c for c in bad if c[0] in ('same', 'plusk', 'len', 'samelen', 'ge', 'ge0')]
            bad = weak or bad        # a template may fail only because of a built-in candidate that does not hold
            info.dropped |= set(bad)
            raise Restart('dropped %r' % (bad,))
        self.looplog = getattr(self, 'looplog', {})
        self.looplog[key] = [c for c, _ in live]
        raise PathEnd('loop closed')
    def explain(self, g):
        if g is None or isinstance(g, bool): return
        for x in self.leaves(g):
            r = self.check_valid(x, quick=True)
            self.log('      %s %s' % (r[0], (lambda t: t if len(t) < 900 else t[:300] + ' ... ' + t[-600:])(' '.join(str(x).split()))))
    def candidates(self, ctx):
        out = []
        for l in ctx.labels:
            e = ctx.entry[l]
            nm = (l[0],) + tuple(l[1:])
            if isinstance(e, tuple) and e and e[0] == 'comps':
                out.append((('same',) + nm, lambda c, l=l, e=e: z3.And(*[a == b for a, b in zip(e[1], c.cur(l)[1])])))
                continue
            if e is UNBOUND or isinstance(ctx.info.mod[l], ConstS): continue
            sh = ctx.info.mod[l]
            if hasattr(sh, 'candidates'): out += sh.candidates(self, l, e)
            if isinstance(sh, (Scalar, TupleS, OptS)):
                out.append((('same',) + nm, lambda c, l=l, e=e: self.eq(c.cur(l), e)))
            if sh == INT:
                ent = self.term(e, INT)
                out.append((('plusk',) + nm, lambda c, l=l, ent=ent: self.term(c.cur(l), INT) == ent + c.k))
                out.append((('ge',) + nm, lambda c, l=l, ent=ent: self.term(c.cur(l), INT) >= ent))
                out.append((('ge0',) + nm, lambda c, l=l: self.term(c.cur(l), INT) >= 0))
            if sh == REAL:
                ent = self.term(e, REAL)
                out.append((('ge',) + nm, lambda c, l=l, ent=ent: self.term(c.cur(l), REAL) >= ent))
            if isinstance(sh, ListS):
                n0 = self.list_comps(e, sh)[0]
                out.append((('len',) + nm, lambda c, l=l, n0=n0: c.cur(l).cell.comps[0] == n0 + c.k))
                out.append((('samelen',) + nm, lambda c, l=l, n0=n0: c.cur(l).cell.comps[0] == n0))
        for t in self.templates:
            for ck, f in (t(ctx) or ()):
                out.append((ck if isinstance(ck, tuple) else ('tmpl', ck), f))
        return out

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression ' + type(e).__name__)
        return m(e, fr)
    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and abs(v) != float('inf') else (_ for _ in ()).throw(Unsupported('nan/inf literal'))
        if isinstance(v, (bool, int, str, type(None))): return v
        if v is Ellipsis: return None
        raise Unsupported('constant %r' % (v,))
    def e_Name(self, e, fr): return self.lookup(e.id, fr)
    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), self.attrname(e.attr, fr), fr)
    def e_Tuple(self, e, fr): return tuple(self.eval_star(e.elts, fr))
    def e_List(self, e, fr): return self.mklist(self.eval_star(e.elts, fr))
    def e_Set(self, e, fr):
        s = self.mkset()
        for x in self.eval_star(e.elts, fr): self.lib['set.add'](self, s, x)
        return s
    def eval_star(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred): out += self.need_items(self.eval(x.value, fr))
            else: out.append(self.eval(x, fr))
        return out
    def need_items(self, v):
        it = self.seq_items(self.seqof(v))
        if it is None: raise Unsupported('symbolic sequence where a fixed one is needed')
        return it
    def e_Dict(self, e, fr):
        d = self.mkdict()
        for k, v in zip(e.keys, e.values):
            if k is None: self.lib['dict.update'](self, d, self.eval(v, fr))
            else: self.dict_set(d, self.eval(k, fr), self.eval(v, fr))
        return d
    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.cond(self.eval(e.test, fr)) else e.orelse, fr)
    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.eval(x, fr)
            c = self.cond(v)
            if c != isand: return v
        return self.eval(e.values[-1], fr)
    def mkbool(self, t):
        if isinstance(t, bool): return t
        t = z3.simplify(t)
        return True if z3.is_true(t) else False if z3.is_false(t) else Sym(t, BOOL)
    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not): return self.mkbool(self.Not(self.truth(v)))
        if isinstance(v, Ext): return v.py_unary(self, {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)])
        v = self.toint(self.force(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, Fraction)): return -v
            return Sym(-v.t, v.s)
        if isinstance(e.op, ast.UAdd): return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int): return ~v
        raise Unsupported('unary operator')
    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr); b = self.eval(e.right, fr)
        return self.binop(OPS[type(e.op)], a, b)
    def binop(self, op, a, b):
        if isinstance(a, Ext): return a.py_binop(self, op, b, False)
        if isinstance(b, Ext): return b.py_binop(self, op, a, True)
        a, b = self.force(a), self.force(b)
        num = (bool, int, Fraction)
        if op in '|&-^' and isinstance(a, VSet) and isinstance(b, VSet): return self.lib['set.op'](self, op, a, b)
        if isinstance(a, num) and isinstance(b, num):
            try:
                if op == '/': return Fraction(a) / Fraction(b)
                if op == '**' and not (isinstance(b, int) and (b >= 0) and b < 200): raise Unsupported('power')
                if op in ('<<', '>>', '&', '|', '^') and not (isinstance(a, int) and isinstance(b, int)): self.raise_('TypeError')
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '//': lambda: a // b, '%': lambda: a % b, '**': lambda: a ** b,
                        '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b}[op]()
            except ZeroDivisionError: self.raise_('ZeroDivisionError')
        if (is_num(a) or is_boolv(a)) and (is_num(b) or is_boolv(b)):
            if op in '&|' and is_boolv(a) and is_boolv(b):
                return self.mkbool((self.And if op == '&' else self.Or)(tbool(a), tbool(b)))
            x, y, s = self.num2(a, b)
            if op == '+': return Sym(x + y, s)
            if op == '-': return Sym(x - y, s)
            nonlin = getattr(self, 'nonlin', None) if s == REAL else None       # a unit may ask for uninterpreted products
            if op == '*': return Sym(nonlin(op, x, y) if nonlin and not const_term(x) and not const_term(y) else x * y, s)
            if op in ('/', '//', '%'):
                if self.decide(y == 0): self.raise_('ZeroDivisionError')
                if op == '/':
                    x, y = (z3.ToReal(x), z3.ToReal(y)) if s == INT else (x, y)
                    if nonlin and not const_term(y): return Sym(nonlin(op, x, y), REAL)
                    return Sym(x / y, REAL)
                if s == INT:
                    q = z3.If(y > 0, x / y, (-x) / (-y))
                    if z3.is_int_value(y) and y.as_long() > 0: q = x / y
                    if self.decide(y > 0): q = x / y
                    return Sym(q, INT) if op == '//' else Sym(x - y * q, INT)
                q = z3.ToReal(z3.ToInt(x / y))
                return Sym(q, REAL) if op == '//' else Sym(x - y * q, REAL)
            if s == INT and op in '&<<>>':        # masks 2**k - 1 and shifts by constants are arithmetic
                if op == '&' and isinstance(a, int): a, b, x, y = b, a, y, x
                if isinstance(b, int) and not isinstance(b, bool):
                    if op == '&' and b >= 0 and b & (b + 1) == 0: return Sym(x % z3.IntVal(b + 1), INT)
                    if op != '&' and 0 <= b < 200: return Sym(x * 2 ** b if op == '<<' else x / z3.IntVal(2 ** b), INT)
            if op == '**': return Sym(fn('pow', R, R, R)(self.term(a, REAL), self.term(b, REAL)), REAL)
            raise Unsupported('operator %s on symbolic numbers' % op)
        if is_strv(a) and is_strv(b) and op == '+':
            return mkcat([a, b])
        if op == '%' and is_strv(a): return self.lib['str.percent'](self, a, b)
        if op == '+' and isinstance(a, VList) and isinstance(b, VList): return self.concat_lists(a, b)
        if op == '+' and isinstance(a, tuple) and isinstance(b, tuple): return a + b
        if op == '*' and (isinstance(a, VList) or isinstance(b, VList)):
            l, n = (a, b) if isinstance(a, VList) else (b, a)
            return self.lib['list.repeat'](self, l, n)
        if op == '*' and isinstance(a, str) and isinstance(b, int): return a * b
        self.raise_('TypeError', 'operands of ' + op)
    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr); res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            c = self.compare(op, left, right)
            if len(e.ops) == 1: return c
            res = self.And(tbool(res) if not isinstance(res, bool) else res, self.truth(c))
            left = right
        return self.mkbool(res)
    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is or t is ast.IsNot:
            if b is None: c = self.isnone(a)
            elif a is None: c = self.isnone(b)
            elif isinstance(b, bool) and isinstance(a, (Sym, bool)): c = self.eq(a, b) if is_boolv(a) else False
            elif isinstance(a, VRef) and isinstance(b, VRef): c = a.t == b.t
            elif isinstance(a, (VList, VDict, VSet)) and isinstance(b, (VList, VDict, VSet)): c = a.cell is b.cell
            elif isinstance(a, PyType) and isinstance(b, PyType): c = a.t is b.t
            elif isinstance(a, (PyObj, VFunc, VClass, Builtin, Ext)) or isinstance(b, (PyObj, VFunc, VClass, Builtin, Ext)): c = a is b
            else: raise Unsupported('is')
            return self.mkbool(c if t is ast.Is else self.Not(c))
        if t in (ast.In, ast.NotIn):
            c = self.contains(b, a)
            if isinstance(c, (Sym,)): c = c.t
            return self.mkbool(c if t is ast.In else self.Not(c))
        if t in (ast.Eq, ast.NotEq):
            for x, y, rev in ((a, b, False), (b, a, True)):
                if isinstance(x, Ext) and hasattr(x, 'py_eqop'): return x.py_eqop(self, '==' if t is ast.Eq else '!=', y)
            c = self.eq(a, b)
            return self.mkbool(c if t is ast.Eq else self.Not(c))
        r = self.order(CMP[t], a, b)
        return r if isinstance(r, Ext) or isinstance(r, Sym) else self.mkbool(r)
    def slice_key(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, fr)
            if s.step is not None: return slice(f(s.lower), f(s.upper), f(s.step))
            return slice(f(s.lower), f(s.upper), None)
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return tuple(self.slice_key(x, fr) for x in s.elts)
        return self.eval(s, fr)
    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.slice_key(e.slice, fr))
    def getitem(self, o, k):
        if isinstance(o, Ext): return o.py_getitem(self, k)
        o = self.force(o)
        if isinstance(k, slice):
            if k.step is not None and k.step != 1:
                if isinstance(o, VList) and o.cell.items is not None: return self.mklist(o.cell.items[k])
                if isinstance(o, VList): return self.list_slice(o, k.start, k.stop, k.step)
                raise Unsupported('slice step')
            if isinstance(o, VList): return self.list_slice(o, k.start, k.stop)
            if isinstance(o, (tuple, str)) and all(x is None or isinstance(x, int) for x in (k.start, k.stop)): return o[k]
            if is_strv(o): return self.lib['str.slice'](self, o, k.start, k.stop)
            raise Unsupported('slice of %r' % (o,))
        if isinstance(o, VDict): return self.dict_get(o, k)
        if isinstance(o, VList):
            i = self.list_index(o, k)
            if o.cell.items is not None:
                if isinstance(i, int): return o.cell.items[i]
                for q in range(len(o.cell.items)):
                    if self.decide(self.term(i, INT) == q): return o.cell.items[q]
                raise PathEnd('index')
            return self.lget(o, self.term(i, INT))
        if isinstance(o, tuple):
            k = self.force(k)
            if isinstance(k, Sym):
                for q in range(len(o)):
                    if self.decide(self.eq(k, q)): return o[q]
                    if self.decide(self.eq(k, q - len(o))): return o[q]
                self.raise_('IndexError')
            try: return o[k]
            except IndexError: self.raise_('IndexError')
        if is_strv(o):
            k = self.force(k)
            if isinstance(o, str) and isinstance(k, int):
                try: return o[k]
                except IndexError: self.raise_('IndexError')
            return self.lib['str.getitem'](self, o, k)
        if isinstance(o, PyObj):
            f = self.class_lookup(o.cls, '__getitem__')
            if f: return self.call(VBound(f, o), [k], {})
        if o is None: self.raise_('TypeError', 'not subscriptable')
        raise Unsupported('subscript of %r' % (o,))
    def setitem(self, o, s, v, fr): self.setitem_k(o, self.slice_key(s, fr), v)
    def setitem_k(self, o, k, v):
        if isinstance(o, Ext): return o.py_setitem(self, k, v)
        o = self.force(o)
        if isinstance(k, slice):
            if isinstance(o, VList) and k.start is None and k.stop is None and k.step is None:
                return self.list_replace(o, self.seq_to_list(self.seqof(v)))
            raise Unsupported('slice assignment')
        if isinstance(o, VDict): return self.dict_set(o, k, v)
        if isinstance(o, VList):
            i = self.list_index(o, k)
            c = o.cell
            if c.items is not None and isinstance(i, int):
                self.note_write(c); c.items[i] = v; return
            if c.items is not None: self.make_sym(o)
            self.ensure_elem(o, v); c = o.cell
            it = self.term(i, INT)
            self.stale_views(c, it)
            vt = self.pack(v, c.shape.elem)
            c.setc(self, [c.comps[0]] + [z3.Store(a, it, t) for a, t in zip(c.comps[1:], vt)])
            self.relink(v, c, it, 1, c.shape.elem)
            return
        raise Unsupported('item assignment on %r' % (o,))
    def e_Lambda(self, e, fr): return VFunc(e, fr, fr.module, (fr.func.qual if fr.func else fr.module.name) + '.<lambda>')
    def e_JoinedStr(self, e, fr):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant): out.append(p.value)
            else:
                if p.conversion not in (-1, 115): raise Unsupported('f-string conversion')
                v = self.eval(p.value, fr)
                spec = self.eval(p.format_spec, fr) if p.format_spec else ''
                out.append(self.lib['format1'](self, v, spec))
        return mkcat(out)
    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.iscomp: f = f.parent
        self.assign_name(e.target.id, v, f); return v
    def e_Starred(self, e, fr): raise Unsupported('starred')
    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in fr.vars:
            return self.mksuper(e, fr)
        f = self.eval(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                if hasattr(f, 'py_call_star') and len(e.args) == 1 and not e.keywords and isinstance(v, VList): return f.py_call_star(self, v)
                args += self.need_items(v)
            else: args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if isinstance(d, VDict) and d.cell.items is not None:
                    for kk, vv in d.cell.items: kw[kk] = vv
                elif isinstance(d, VDict): kw['**'] = d
                else: raise Unsupported('** of %r' % (d,))
            else: kw[k.arg] = self.eval(k.value, fr)
        self.curpos = (fr.module.name, e.lineno, e.col_offset)
        return self.call(f, args, kw)
    def mksuper(self, e, fr):
        if e.args:
            c = self.eval(e.args[0], fr); o = self.eval(e.args[1], fr)
        else:
            f = fr
            while f.self_val is None: f = f.parent
            c, o = f.cls, f.self_val
        return SuperV(c, o)
    def comp_frame(self, fr):
        f = Frame(self, fr, fr.module, None, None); f.iscomp = True; return f
    def e_ListComp(self, e, fr): return self.comp(e, fr, 'list')
    def e_GeneratorExp(self, e, fr):
        r = self.comp(e, fr, 'gen'); return r
    def e_SetComp(self, e, fr): return self.lib['type.set'](self, [self.comp(e, fr, 'list')], {})
    def e_DictComp(self, e, fr): return self.comp(e, fr, 'dict')
    def comp(self, e, fr, kind):
        gens = e.generators
        seq0 = self.seqof(self.eval(gens[0].iter, fr))
        if isinstance(seq0, VIter): seq0 = self.iter_rest(seq0)
        items = self.seq_items(seq0)
        if items is None:
            try: return self.comp_sym(e, fr, kind, seq0)
            except SideEffect:
                if self.purity: raise
                return self.comp_loop(e, fr, kind, seq0)
        out = []; acc = []
        d = self.mkdict() if kind == 'dict' else None
        def rec(i, f):
            if i == len(gens):
                if kind == 'dict': self.dict_set(d, self.eval(e.key, f), self.eval(e.value, f))
                else: out.append(self.eval(e.elt, f))
                return
            g = gens[i]
            sq = seq0 if i == 0 else self.seqof(self.eval(g.iter, f))
            its = items if i == 0 else self.seq_items(sq)
            if its is None:
                if i < len(gens) - 1 or kind == 'gen': raise Unsupported('nested symbolic comprehension')
                e2 = ast.copy_location(ast.DictComp(e.key, e.value, [g]) if kind == 'dict' else ast.ListComp(e.elt, [g]), e)
                inner = self.comp_sym(e2, f, kind, sq)
                if kind == 'dict': self.lib['dict.update'](self, d, inner)
                else:
                    if not acc: acc.append(self.mklist())
                    for x in out: self.list_append(acc[0], x)
                    out.clear(); acc[0] = self.concat_lists(acc[0], self.seq_to_list(self.seqof(inner)))
                return
            for x in its:
                f2 = self.comp_frame(f); self.assign(g.target, x, f2)
                if all(self.cond(self.eval(c, f2)) for c in g.ifs): rec(i + 1, f2)
        rec(0, fr)
        if kind == 'dict': return d
        r = self.mklist(out)
        if acc: r = self.concat_lists(acc[0], r)
        return VIter(self, self.seqof(r)) if kind == 'gen' else r
    def comp_loop(self, e, fr, kind, seq):
        """a comprehension whose element has side effects: the loop that fills the container"""
        gens = e.generators
        if len(gens) != 1: raise Unsupported('nested symbolic comprehension')
        g = gens[0]; f2 = self.comp_frame(fr)
        acc = self.mkdict() if kind == 'dict' else self.mklist()
        f2.vars['.acc'] = acc
        L = lambda n: ast.copy_location(n, e)
        nm = lambda: L(ast.Name('.acc', ast.Load()))
        if kind == 'dict': st = L(ast.Assign([L(ast.Subscript(nm(), e.key, ast.Store()))], e.value))
        else: st = L(ast.Expr(L(ast.Call(L(ast.Attribute(nm(), 'append', ast.Load())), [e.elt], []))))
        body = [st]
        for c in reversed(g.ifs): body = [L(ast.If(c, body, []))]
        self.cut(L(ast.For(g.target, L(ast.Constant(None)), body, [])), f2, seq)
        acc = f2.vars['.acc']
        return VIter(self, self.seqof(acc)) if kind == 'gen' else acc
    def comp_sym(self, e, fr, kind, seq):
        gens = e.generators
        if len(gens) != 1: raise Unsupported('nested symbolic comprehension')
        g = gens[0]; n = self.term(self.length(seq), INT)
        def at(j, what):
            f2 = self.comp_frame(fr); self.assign(g.target, seq.get(j), f2); return what(f2)
        if not g.ifs:
            if kind == 'dict':
                return self.dictcomp(e, seq, n, at)
            r = LazySeq(self, n, lambda j: at(j, lambda f: self.eval(e.elt, f)))
            if kind == 'gen': return r
            return self.build_list(Sym(n, INT), r.get)
        # filtered
        def test(j):
            return at(j, lambda f: self.mkbool(self.And(*[self.truth(self.eval(c, f)) if len(g.ifs) == 1 else tbool(self.cond(self.eval(c, f))) for c in g.ifs])))
        if kind == 'dict': raise Unsupported('filtered symbolic dict comprehension')
        r = LazySeq(self, n, lambda j: at(j, lambda f: self.eval(e.elt, f)), test); r.seq = seq
        if kind == 'gen': return r
        return self.filter_list(r)
    def filter_list(self, r):
        """[r(j) for j in range(n) if test(j)]: fresh list described by an order-preserving index map"""
        n = r.n
        j = z3.Int(self.fresh_name('fj'))
        inr = lambda x: z3.And(0 <= x, x < n)
        t, _ = self.pure_value(lambda: r.test(j), [j], inr(j))
        T = self.fresh_fun('fsel', I, B) if not self.binders else None
        if T is None: raise SideEffect('filter in a pure context')
        jt = jterms(j, tbool(t))
        self.assume(z3.ForAll([j], z3.Implies(inr(j), T(j) == tbool(t)), patterns=[T(j)] + jt))
        val, _ = self.pure_value(lambda: r.get(j), [j], z3.And(inr(j), tbool(t)))
        s = self.shape_of(val)
        V = [self.fresh_fun('fval', I, c.sort()) for c in self.pack(val, s)]
        for v, c in zip(V, self.pack(val, s)):
            self.assume(z3.ForAll([j], z3.Implies(z3.And(inr(j), T(j)), v(j) == c), patterns=[v(j)]))
        m = self.fresh_term(I, 'fm'); P = self.fresh_fun('fpos', I, I); Q = self.fresh_fun('fidx', I, I)
        a = z3.Int(self.fresh_name('fa')); b = z3.Int(self.fresh_name('fb'))
        inm = lambda x: z3.And(0 <= x, x < m)
        self.assume(z3.And(m >= 0, m <= n))
        self.assume(z3.ForAll([a], z3.Implies(inm(a), z3.And(inr(P(a)), T(P(a)), Q(P(a)) == a)), patterns=[P(a)]))
        self.assume(z3.ForAll([a, b], z3.Implies(z3.And(inm(a), inm(b), a < b), P(a) < P(b)), patterns=[z3.MultiPattern(P(a), P(b))]))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(inr(j), T(j)), z3.And(inm(Q(j)), P(Q(j)) == j)), patterns=[T(j)]))
        arrs = []
        for v in V:
            arr = self.fresh_term(z3.ArraySort(I, v.rng), 'flt')
            self.assume(z3.ForAll([a], z3.Implies(inm(a), z3.Select(arr, a) == v(P(a))), patterns=[z3.Select(arr, a)]))
            self.assume(z3.ForAll([j], z3.Implies(z3.And(inr(j), T(j)), z3.Select(arr, Q(j)) == v(j)), patterns=[T(j)]))
            arrs.append(arr)
        res = self.symlist([m] + arrs, s)
        if getattr(self, 'on_filter', None): self.on_filter(r, n, res, T, P, Q)
        iv = getattr(getattr(r, 'seq', None), 'inv', None)
        if iv is not None and len(arrs) == 1 and z3.eq(z3.simplify(self.pack(val, s)[0]), z3.simplify(iv.key(j))):
            arr = arrs[0]
            res.cell.inv = ([m, arr], Inverse(lambda a: z3.Select(arr, a), lambda k: Q(iv.pos(k)), lambda k: z3.And(iv.member(k), z3.substitute(z3.substitute(tbool(t), (iv.key(j), k)), (j, iv.pos(k))))))
        return res
    def dictcomp(self, e, seq, n, at):
        j = z3.Int(self.fresh_name('dj')); dom = z3.And(0 <= j, j < n)
        kv, _ = self.pure_value(lambda: at(j, lambda f: (self.eval(e.key, f), self.eval(e.value, f))), [j], dom)
        iv = getattr(seq, 'inv', None)
        if iv is not None:
            ks = self.shape_of(kv[0])
            if not isinstance(ks, BotS) and z3.eq(z3.simplify(self.pack(kv[0], ks)[0]), z3.simplify(iv.key(j))): return self.dict_inverse(n, j, kv, iv)
        return self.dict_from_pairs(n, j, kv)
    def dict_inverse(self, n, j, kv, iv):
        """{k(j): v(j)} over distinct keys whose positions are known"""
        ks, vs = self.shape_of(kv[0]), self.shape_of(kv[1])
        kt = self.pack(kv[0], ks)[0]; vts = self.pack(kv[1], vs)
        dom = self.fresh_term(z3.ArraySort(kt.sort(), B), 'dcd')
        k = z3.Const(self.fresh_name('dk'), kt.sort()); pk = iv.pos(k)
        arrs = [self.fresh_term(z3.ArraySort(kt.sort(), t.sort()), 'dca') for t in vts]
        pats = [z3.Select(a, k) for a in [dom] + arrs]
        self.assume(z3.ForAll([k], z3.And(z3.Select(dom, k) == iv.member(k), z3.Implies(z3.Select(dom, k), z3.And(0 <= pk, pk < n, iv.key(pk) == k, *[z3.Select(a, k) == z3.substitute(z3.substitute(t, (kt, k)), (j, pk)) for a, t in zip(arrs, vts)]))), patterns=pats))
        return VDict(self.newcell('dict', comps=[dom] + arrs, shape=DictS(ks, vs)))
    def dict_from_pairs(self, n, j, kv):
        """{k(j): v(j) for j in range(n)} (last one wins); kv are values depending on the constant j"""
        ks, vs = self.shape_of(kv[0]), self.shape_of(kv[1])
        kt = self.pack(kv[0], ks)[0]; vts = self.pack(kv[1], vs)
        K = self.fresh_fun('dck', I, kt.sort())
        inr = lambda x: z3.And(0 <= x, x < n)
        self.assume(z3.ForAll([j], z3.Implies(inr(j), K(j) == kt), patterns=[K(j)] + jterms(j, kt)))
        dom = self.fresh_term(z3.ArraySort(kt.sort(), B), 'dcd')
        last = self.fresh_fun('dcl', kt.sort(), I)
        k = z3.Const(self.fresh_name('dk'), kt.sort())
        self.assume(z3.ForAll([j], z3.Implies(inr(j), z3.And(z3.Select(dom, K(j)), last(K(j)) >= j)), patterns=[K(j)]))
        self.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(inr(last(k)), K(last(k)) == k)), patterns=[z3.Select(dom, k)]))
        arrs = [dom]
        for t in vts:
            V = self.fresh_fun('dcv', I, t.sort())
            self.assume(z3.ForAll([j], z3.Implies(inr(j), V(j) == t), patterns=[V(j)]))
            self.assume(z3.ForAll([j], z3.Implies(inr(j), V(j) == t), patterns=[K(j)]))
            a = self.fresh_term(z3.ArraySort(kt.sort(), t.sort()), 'dca')
            self.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.Select(a, k) == V(last(k))), patterns=[z3.Select(a, k)]))
            arrs.append(a)
        return VDict(self.newcell('dict', comps=arrs, shape=DictS(ks, vs)))

def jterms(j, *exprs):
    """the smallest terms that mention j (array reads and uninterpreted applications): what a pattern can hang on"""
    out, seen, todo = {}, set(), list(exprs)
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x): continue
        seen.add(x.get_id())
        if (x.decl().kind() == z3.Z3_OP_UNINTERPRETED or x.decl().kind() == z3.Z3_OP_SELECT) and any(z3.eq(c, j) for c in x.children()) and not any(z3.is_quantifier(c) for c in x.children()):
            out[x.get_id()] = x
        todo.extend(x.children())
    return list(out.values())[:3]

class FieldParent:
    """the field array of a modelled class, seen as the parent container of a list-valued field"""
    def __init__(self, ex, cls, name):
        self.ex, self.cls, self.name = ex, cls, name; self.birth = 0; self.label = ('fld', cls, name); self.enum = None; self.views = []
    @property
    def comps(self): return self.ex.field_cell(self.cls, self.name)
    def setc(self, ex, comps, shape=None):
        if ex.purity: raise SideEffect('field write in a pure context')
        ex.loop_write(0, self.label)
        ex.fieldcells[(self.cls, self.name)] = list(comps)

class VClassOf(Ext):
    """type(obj) of a modelled object"""
    def __init__(self, ref): self.ref = ref
    def get(self, ex, name):
        if name == '__name__':
            return Sym(fn('class_name', S_REF, S_STR)(ex.term(self.ref)), STR)
        raise Unsupported('class attribute ' + name)
    def py_getattr(self, ex, name): return self.get(ex, name)

class LazySeq(Ext):
    """a generator over a symbolic sequence; elements are pure"""
    def __init__(self, ex, n, get, test=None): self.n, self.get, self.test = n, get, test
    def py_iter(self, ex):
        if self.test is not None: return ex.seqof(ex.filter_list(self))
        return ex.seqof(ex.build_list(Sym(self.n, INT), self.get))

def is_generator(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        st.extend(ast.iter_child_nodes(n))
    return False

def _self_cls(self, ex):
    o = self.self_val
    if isinstance(o, PyObj): return o.cls
    if isinstance(o, VClass): return o
    if isinstance(o, VRef):
        d = ex.classes.get(o.cls, {})
        if d.get('src') is not None: return d['src']
    raise Unsupported('super() on %r' % (o,))
SuperV.self_cls = _self_cls
