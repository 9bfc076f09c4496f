"""pyvc: models of the Python built-ins and of the standard library (trusted base; listed in DESIGN.md).

Concrete arguments are computed by CPython itself; symbolic ones get an uninterpreted function of all
arguments, plus the axioms written here."""
import ast, os, re as _re
from .execute import *

lib = {}
def b(*names):
    def d(f):
        for n in names: lib[n] = f
        return f
    return d
CONC = (bool, int, Fraction, str, type(None))
def conc(v):
    if isinstance(v, CONC): return True
    if isinstance(v, tuple): return all(conc(x) for x in v)
    return False

# ------------------------------------------------------------------ uninterpreted string functions
def uf(ex, name, args, shape):
    """value of `shape` as an uninterpreted function of the given values"""
    ts = []
    for a in args:
        if isinstance(a, (VList, VDict, VSet)): ts += ex.pack(a, ex.shape_of(a))
        elif a is None: name += '|None'
        elif isinstance(a, (bool, int)) : name += '|%r' % (a,)
        else: ts += ex.pack(a, ex.shape_of(a))
    comps = [fn('%s.%d' % (name, i) if len(shape.sorts()) > 1 else name, *([t.sort() for t in ts] + [s]))(*ts) for i, s in enumerate(shape.sorts())]
    v = shape.unpack(ex, comps)
    ex.wf(shape, comps)
    return v
def ufterm(name, sorts_, srt, *ts):
    return fn(name, *(list(sorts_) + [srt]))(*ts)
def frac(x):
    return Fraction(repr(x)) if isinstance(x, float) else x

STRM = {}
def strm(name):
    def d(f): STRM[name] = f; return f
    return d

def str_method(ex, o, name):
    if not hasattr(str, name): return None
    def call(ex, args, kw):
        if isinstance(o, str) and all(conc(a) for a in args) and not kw and name not in ('join', 'format'):
            try: r = getattr(o, name)(*args)
            except ValueError as e: ex.raise_('ValueError', str(e))
            except TypeError as e: ex.raise_('TypeError', str(e))
            return conv(ex, r)
        if name in STRM: return STRM[name](ex, o, args, kw)
        if kw: raise Unsupported('keyword arguments of str.' + name)
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isspace', 'isidentifier', 'isalnum'):
            if args and isinstance(args[0], tuple):
                return ex.mkbool(ex.Or(*[tbool(uf(ex, 'str_' + name, [o, a], BOOL)) for a in args[0]]))
            return uf(ex, 'str_' + name, [o] + list(args), BOOL)
        if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'replace', 'zfill', 'ljust', 'rjust'):
            return uf(ex, 'str_' + name, [o] + list(args), STR)
        st = structured(o)
        if st is not None and not kw:
            r = split_structured(ex, st, name, args)
            if r is not None: return r
        if name == 'split' and len(args) == 2 and args[1] == 1 and isinstance(args[0], str) and args[0]:
            if not ex.decide(ex.contains(o, args[0])): return ex.mklist([o])
            return ex.mklist([uf(ex, 'str_before', [o, args[0]], STR), uf(ex, 'str_after', [o, args[0]], STR)])
        if name == 'partition' and isinstance(args[0], str) and args[0]:
            if not ex.decide(ex.contains(o, args[0])): return (o, '', '')
            return (uf(ex, 'str_before', [o, args[0]], STR), args[0], uf(ex, 'str_after', [o, args[0]], STR))
        if name in ('split', 'rsplit', 'splitlines'):
            r = uf(ex, 'str_' + name, [o] + list(args), ListS(STR))
            if name == 'split' and args and args[0] is not None: ex.assume(r.cell.comps[0] >= 1)
            return r
        if name in ('find', 'rfind', 'count'):
            return uf(ex, 'str_' + name, [o] + list(args), INT)
        if name in ('partition', 'rpartition'):
            return uf(ex, 'str_' + name, [o] + list(args), TupleS(STR, STR, STR))
        raise Unsupported('str.' + name)
    return Builtin('str.' + name, call)

def structured(o):
    """parts of a string made of literals and printed integers (which hold no white space, '=' or letters), or None"""
    if not isinstance(o, Sym): return None
    ps = parts_of(o)
    return ps if all(isinstance(p, str) or p.decl().name() == 'str_of_INT' for p in ps) else None
def split_structured(ex, ps, name, args):
    if name == 'split' and (not args or args[0] is None):
        words, cur = [], []
        for p in ps:
            if not isinstance(p, str): cur.append(p); continue
            i = 0
            for m in _re.finditer(r'\s+', p):
                if m.start() > i: cur.append(p[i:m.start()])
                if cur: words.append(cur)
                cur = []; i = m.end()
            if i < len(p): cur.append(p[i:])
        if cur: words.append(cur)
        return ex.mklist([mkcat([x if isinstance(x, str) else Sym(x, STR) for x in w]) for w in words])
    if name in ('split', 'partition') and args and isinstance(args[0], str) and args[0] and (name == 'partition' or len(args) == 2 and args[1] == 1) and not any(c in '+-0123456789' for c in args[0]):
        sep = args[0]
        S = lambda xs: mkcat([x if isinstance(x, str) else Sym(x, STR) for x in xs])
        for i, p in enumerate(ps):
            if isinstance(p, str) and sep in p:
                a, _, b_ = p.partition(sep); l, r = S(list(ps[:i]) + [a]), S([b_] + list(ps[i + 1:]))
                return ex.mklist([l, r]) if name == 'split' else (l, sep, r)
        return ex.mklist([S(ps)]) if name == 'split' else (S(ps), '', '')
    return None
def conv(ex, r):
    """CPython value -> engine value"""
    if isinstance(r, float): return Fraction(repr(r))
    if isinstance(r, list): return ex.mklist([conv(ex, x) for x in r])
    if isinstance(r, tuple): return tuple(conv(ex, x) for x in r)
    if isinstance(r, dict): return ex.mkdict([[conv(ex, k), conv(ex, v)] for k, v in r.items()])
    if isinstance(r, (set, frozenset)): return ex.mkset([conv(ex, x) for x in sorted(r, key=repr)])
    return r

@strm('join')
def _join(ex, o, args, kw):
    seq = ex.seqof(args[0])
    items = ex.seq_items(seq)
    if items is not None:
        parts = []
        for i, x in enumerate(items):
            x = ex.force(x)
            if not is_strv(x): ex.raise_('TypeError', 'join of non-strings')
            if i: parts.append(o)
            parts.append(x)
        return mkcat(parts)
    l = ex.seq_to_list(seq)
    r = uf(ex, 'str_join', [o, l], STR)
    ex.joins[r.t.get_id()] = (r.t, o, list(l.cell.comps))       # what was joined, for postconditions
    return r

@strm('format')
def _format(ex, o, args, kw):
    if not isinstance(o, str): raise Unsupported('format of a symbolic string')
    import string
    out, auto = [], 0
    for text, field, spec, cv in string.Formatter().parse(o):
        out.append(text)
        if field is None: continue
        name, rest = string._string.formatter_field_name_split(field)
        if name == '': name = auto; auto += 1
        if isinstance(name, int):
            if name >= len(args): ex.raise_('IndexError', 'format')
            v = args[name]
        else:
            if name not in kw: ex.raise_('KeyError', name)
            v = kw[name]
        for isattr, a in rest:
            v = ex.getattr(v, a) if isattr else ex.getitem(v, a)
        if spec and '{' in spec: raise Unsupported('nested format spec')
        out.append(format1(ex, v, spec, cv))
    return mkcat(out)

def tostr(ex, v):
    v = ex.force(v)
    if isinstance(v, bool) or v is None or isinstance(v, int): return str(v)
    if is_strv(v): return v
    if isinstance(v, Fraction): return repr(float(v))
    if isinstance(v, Sym):
        if v.s in (INT, REAL): return uf(ex, 'str_of_' + v.s.name, [v], STR)
        if v.s == BOOL: return 'True' if ex.cond(v) else 'False'
        return uf(ex, 'str_of', [v], STR)
    if isinstance(v, VExc):
        if len(v.args) == 1: return tostr(ex, v.args[0])
        return uf(ex, 'str_of_exc', [], STR)
    if isinstance(v, (VList, VDict, VSet)): 
        try: return uf(ex, 'str_of_cont', [v], STR)
        except Unsupported: return ex.fresh(STR, 'repr')
    if isinstance(v, tuple):
        if conc(v): return str(tuple(float(x) if isinstance(x, Fraction) else x for x in v))
        out = []
        for i, x in enumerate(v): out += [', '] * bool(i) + [repr_(ex, x)]
        return mkcat(['('] + out + [',)' if len(v) == 1 else ')'])
    if isinstance(v, ExtU): return Sym(fn('str_of_' + v.shape.name, v.shape.sort, S_STR)(v.t), STR)
    return ex.fresh(STR, 'repr')
def repr_(ex, v):
    if isinstance(v, str): return repr(v)
    if is_strv(v): return uf(ex, 'str_repr', [v], STR)
    return tostr(ex, v)

@b('format1')
def format1(ex, v, spec, cv=None):
    if cv == 'r': v = repr_(ex, v)
    if spec in ('', None, 's') : return tostr(ex, v)
    v = ex.force(v)
    if isinstance(spec, str) and isinstance(v, (int, str)): return format(v, spec)
    if isinstance(spec, str) and isinstance(v, Fraction): return format(float(v), spec)
    return uf(ex, 'fmt:' + str(spec), [v], STR)

@b('str.percent')
def percent(ex, f, a):
    if not isinstance(f, str): raise Unsupported('% of a symbolic string')
    args = list(a) if isinstance(a, tuple) else [a]
    out, pos = [], 0
    for m in _re.finditer(r'%(?:\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?)([a-zA-Z%])', f):
        out.append(f[pos:m.start()]); pos = m.end()
        if m.group(3) == '%': out.append('%'); continue
        v = ex.getitem(a, m.group(1)) if m.group(1) else (args.pop(0) if args else ex.raise_('TypeError', 'not enough arguments'))
        v = ex.force(v)
        sp, c = m.group(2), m.group(3)
        if c in 'sr' and not sp: out.append(tostr(ex, v) if c == 's' else repr_(ex, v))
        elif isinstance(v, (int, str)): out.append(('%' + sp + c) % v)
        elif isinstance(v, Fraction): out.append(('%' + sp + c) % float(v))
        elif c in 'di' and not sp and isinstance(v, Sym) and v.s == INT: out.append(tostr(ex, v))
        else: out.append(uf(ex, 'fmt:%' + sp + c, [v], STR))
    out.append(f[pos:])
    return mkcat(out)

@b('str.slice')
def str_slice(ex, o, lo, hi):
    return uf(ex, 'str_slice', [o, lo, hi], STR)
@b('str.getitem')
def str_getitem(ex, o, k):
    n = ex.term(ex.length(o), INT); kt = ex.term(k, INT)
    if not ex.decide(z3.And(kt < n, kt >= -n)): ex.raise_('IndexError', 'string index')
    return uf(ex, 'str_getitem', [o, k], STR)

# ------------------------------------------------------------------ list / dict / set methods
@b('list.extend')
def list_extend(ex, l, seq):
    if not isinstance(seq, (Seq, VIter)): seq = ex.seqof(seq)
    items = ex.seq_items(seq)
    if items is not None:
        for x in items: ex.list_append(l, x)
        return
    r = ex.concat_lists(l, ex.seq_to_list(seq))
    ex.list_replace(l, r)
@b('list.repeat')
def list_repeat(ex, l, n):
    n = ex.force(n)
    if l.cell.items is not None and isinstance(n, int): return ex.mklist(l.cell.items * n)
    nt = ex.term(n, INT)
    ln = ex.length(l)
    if ln == 1 or isinstance(ln, Sym) and ex.check_valid(ln.t == 1, quick=True)[0] == 'proved':
        x = l.cell.items[0] if l.cell.items is not None else ex.lget(l, 0)
        s = ex.shape_of(x)
        m = z3.If(nt > 0, nt, z3.IntVal(0))
        return ex.symlist([m] + [z3.K(I, c) for c in ex.pack(x, s)], s)
    raise Unsupported('repeat a list symbolically')

def seq_mutation_guard(ex, *a): pass

def list_method(ex, o, name):
    def m_append(ex, a, k): ex.list_append(o, a[0])
    def m_extend(ex, a, k): list_extend(ex, o, a[0])
    def m_pop(ex, a, k):
        i = a[0] if a else -1
        return ex.list_del(o, i)
    def m_index(ex, a, k):
        if o.cell.items is not None:
            for i, x in enumerate(o.cell.items):
                if ex.decide(ex.eq(x, a[0])): return i
            ex.raise_('ValueError', 'not in list')
        n = o.cell.comps[0]
        i = ex.fresh_term(I, 'idx'); j = z3.Int(ex.fresh_name('ij'))
        sq = ex.seqof(o)
        if not ex.decide(ex.contains(o, a[0])): ex.raise_('ValueError', 'not in list')
        ex.assume(z3.And(0 <= i, i < n, tbool(ex.eq(sq.get(i), a[0]))))
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Not(tbool(ex.eq(sq.get(j), a[0]))))))
        return Sym(i, INT)
    def m_insert(ex, a, k):
        if o.cell.items is not None and isinstance(a[0], int):
            ex.note_write(o.cell); o.cell.items.insert(a[0], a[1]); return
        head = ex.list_slice(o, None, a[0]); tail = ex.list_slice(o, a[0], None)
        ex.list_append(head, a[1]); ex.list_replace(o, ex.concat_lists(head, tail))
    def m_remove(ex, a, k):
        i = m_index(ex, a, k); ex.list_del(o, i)
    def m_clear(ex, a, k): ex.list_replace(o, ex.mklist())
    def m_copy(ex, a, k): return ex.seq_to_list(ex.seqof(o))
    def m_reverse(ex, a, k):
        if o.cell.items is not None: ex.note_write(o.cell); o.cell.items.reverse(); return
        ex.list_replace(o, lib['builtins.reversed_list'](ex, [o], {}))
    def m_sort(ex, a, k):
        r = lib['builtins.sorted'](ex, [o], k); ex.list_replace(o, r)
    def m_count(ex, a, k):
        if o.cell.items is not None:
            r = 0
            for x in o.cell.items: r = ex.binop('+', r, ex.mkbool(ex.eq(x, a[0])) if not isinstance(ex.eq(x, a[0]), bool) else ex.eq(x, a[0]))
            return r
        return count_where(ex, ex.seqof(o), lambda x: ex.eq(x, a[0]))
    f = locals().get('m_' + name)
    return Builtin('list.' + name, f) if f else None

@b('dict.update')
def dict_update(ex, d, o):
    if isinstance(o, VDict):
        if o.cell.items is not None:
            for k, v in list(o.cell.items): ex.dict_set(d, k, v)
            return
        # symbolic right-hand side: merge component-wise
        s = join(ex.shape_of(d), ex.shape_of(o))
        ca, cb = ex.dict_comps(d, s), ex.dict_comps(o, s)
        k = z3.Const(ex.fresh_name('uk'), s.k.sorts()[0]); out = []
        for i, (x, y) in enumerate(zip(ca, cb)):
            z = ex.fresh_term(x.sort(), 'upd')
            rhs = z3.Or(x[k], y[k]) if i == 0 else z3.If(z3.Select(cb[0], k), y[k], x[k])
            ex.assume(z3.ForAll([k], z3.Select(z, k) == rhs, patterns=[z3.Select(z, k)])); out.append(z)
        ex.note_write(d.cell)
        if isinstance(d.cell, ViewCell): d.cell.setc(ex, out); return
        d.cell.items = None; d.cell._comps = out; d.cell.shape = s; d.cell.enum = None
        return
    for p in ex.need_items(o):
        k, v = ex.unpack_items(p, 2) if not isinstance(p, tuple) else p
        ex.dict_set(d, k, v)

def dict_method(ex, o, name):
    def m_get(ex, a, k): return ex.dict_get(o, a[0], a[1] if len(a) > 1 else k.get('default'), missing=None)
    def m_keys(ex, a, k): return DictView(o, 'keys')
    def m_values(ex, a, k): return DictView(o, 'values')
    def m_items(ex, a, k): return DictView(o, 'items')
    m_iteritems, m_iterkeys, m_itervalues = None, None, None
    def m_pop(ex, a, k):
        c = ex.contains(o, a[0])
        if not ex.decide(c):
            if len(a) > 1: return a[1]
            ex.raise_('KeyError', a[0])
        v = ex.dict_get(o, a[0])
        if isinstance(v, (VList, VDict, VSet)) and isinstance(v.cell, ViewCell):
            v = type(v)(ex.newcell(v.cell.kind, comps=list(v.cell.comps), shape=v.cell.shape))
        ex.dict_del(o, a[0]); return v
    def m_setdefault(ex, a, k):
        if not ex.decide(ex.contains(o, a[0])): ex.dict_set(o, a[0], a[1] if len(a) > 1 else None)
        return ex.dict_get(o, a[0])
    def m_update(ex, a, k):
        for x in a: dict_update(ex, o, x)
        for kk, v in k.items(): ex.dict_set(o, kk, v)
    def m_copy(ex, a, k): return lib['type.dict'](ex, [o], {})
    def m_clear(ex, a, k):
        ex.note_write(o.cell)
        if isinstance(o.cell, ViewCell): raise Unsupported('clear of a nested dict')
        o.cell.items = []; o.cell._comps = None
    f = locals().get('m_' + name)
    return Builtin('dict.' + name, f) if f else None

class DictView(Ext):
    def __init__(self, d, kind): self.d, self.kind = d, kind
    def py_iter(self, ex):
        d = self.d
        if d.cell.items is not None:
            its = d.cell.items
            return Seq(items=[p[0] if self.kind == 'keys' else p[1] if self.kind == 'values' else (p[0], p[1]) for p in its])
        n, karr, ks = ex.enum(d)
        def get(j):
            k = ks.unpack(ex, [z3.Select(karr, j)])
            if self.kind == 'keys': return k
            v = ex.elem_of(d.cell, z3.Select(karr, j), 1, d.cell.shape.v)
            return v if self.kind == 'values' else (k, v)
        s = Seq(n=Sym(n, INT), get=get)
        if self.kind == 'keys': s.dict = d
        s.kinv = ex.enum_inv(d)
        if self.kind != 'values': s.inv = s.kinv
        return s
    def py_len(self, ex): return ex.length(self.d)
    def py_contains(self, ex, v):
        if self.kind == 'keys': return ex.contains(self.d, v)
        return ex.contains(self.py_iter(ex), v)
    def py_truth(self, ex): return ex.truth(self.d)
    def py_getattr(self, ex, name): raise Unsupported('dict view attribute ' + name)

@b('set.add')
def set_add(ex, s, x):
    c = s.cell
    if c.items is not None:
        for y in c.items:
            if ex.decide(ex.eq(y, x)): return
        ex.note_write(c); c.items.append(x); return
    j = join(c.shape.elem, ex.shape_of(x))
    if j != c.shape.elem: raise Unsupported('widen set')
    c.setc(ex, [z3.Store(c.comps[0], ex.pack(x, j)[0], z3.BoolVal(True))])
@b('set.op')
def set_op(ex, op, a, bb):
    if a.cell.items is not None and bb.cell.items is not None:
        inb = lambda x, l: ex.decide(ex.Or(*[ex.eq(x, y) for y in l]))
        A, Bs = a.cell.items, bb.cell.items
        if op == '|': r = list(A) + [y for y in Bs if not inb(y, A)]
        elif op == '&': r = [x for x in A if inb(x, Bs)]
        elif op == '-': r = [x for x in A if not inb(x, Bs)]
        else: r = [x for x in A if not inb(x, Bs)] + [x for x in Bs if not inb(x, A)]
        return ex.mkset(r)
    s = join(ex.shape_of(a), ex.shape_of(bb)); x, y = ex.set_comps(a, s)[0], ex.set_comps(bb, s)[0]
    k = z3.Const(ex.fresh_name('sk'), s.elem.sorts()[0]); z = ex.fresh_term(x.sort(), 'set')
    p, q = z3.Select(x, k), z3.Select(y, k)
    rhs = {'|': z3.Or(p, q), '&': z3.And(p, q), '-': z3.And(p, z3.Not(q)), '^': z3.Xor(p, q)}[op]
    ex.assume(z3.ForAll([k], z3.Select(z, k) == rhs, patterns=[z3.Select(z, k)]))
    return VSet(ex.newcell('set', comps=[z], shape=s))
def toset(ex, v):
    return v if isinstance(v, VSet) else lib['type.set'](ex, [v], {})
def set_method(ex, o, name):
    def m_add(ex, a, k): set_add(ex, o, a[0])
    def m_discard(ex, a, k):
        c = o.cell
        if c.items is not None:
            for y in list(c.items):
                if ex.decide(ex.eq(y, a[0])): ex.note_write(c); c.items.remove(y); return
            return
        c.setc(ex, [z3.Store(c.comps[0], ex.pack(a[0], c.shape.elem)[0], z3.BoolVal(False))])
    def m_remove(ex, a, k):
        if not ex.decide(ex.contains(o, a[0])): ex.raise_('KeyError', a[0])
        m_discard(ex, a, k)
    def assign(r):
        ex.note_write(o.cell)
        if r.cell.items is not None and not isinstance(o.cell, ViewCell): o.cell.items = list(r.cell.items); o.cell._comps = None
        else: o.cell.setc(ex, ex.set_comps(r, ex.shape_of(r)), ex.shape_of(r))
    def m_update(ex, a, k):
        for x in a: assign(set_op(ex, '|', o, toset(ex, x)))
    def m_union(ex, a, k):
        r = set_op(ex, '|', o, toset(ex, a[0]) if a else ex.mkset())
        for x in a[1:]: r = set_op(ex, '|', r, toset(ex, x))
        return r
    def m_intersection(ex, a, k): return set_op(ex, '&', o, toset(ex, a[0]))
    def m_difference(ex, a, k): return set_op(ex, '-', o, toset(ex, a[0]))
    def m_issubset(ex, a, k): return ex.mkbool(ex.order('<=', o, toset(ex, a[0])))
    def m_copy(ex, a, k): return set_op(ex, '|', o, ex.mkset())
    f = locals().get('m_' + name)
    return Builtin('set.' + name, f) if f else None

def num_method(ex, o, name):
    if name == 'is_integer' and isinstance(o, Fraction): return Builtin(name, lambda ex, a, k: o.denominator == 1)
    return None

@b('method')
def method(ex, o, name):
    if is_strv(o): return str_method(ex, o, name)
    if isinstance(o, VList): return list_method(ex, o, name)
    if isinstance(o, VDict): return dict_method(ex, o, name)
    if isinstance(o, VSet): return set_method(ex, o, name)
    if isinstance(o, tuple):
        if name == 'index':
            return list_method(ex, ex.mklist(o), name)
        return None
    if is_num(o): return num_method(ex, o, name)
    if isinstance(o, PyType):
        if o.t is dict and name == 'fromkeys':
            def fk(ex, a, k):
                d = ex.mkdict()
                for x in ex.need_items(a[0]): ex.dict_set(d, x, a[1] if len(a) > 1 else None)
                return d
            return Builtin('dict.fromkeys', fk)
        if name == '__name__': return o.t.__name__
        m = getattr(o.t, name, None)
        if m is not None: return Builtin(name, lambda ex, a, k: ex.call(ex.getattr(a[0], name), a[1:], k))
    if isinstance(o, VIter):
        if name in ('next', '__next__'): return Builtin('next', lambda ex, a, k: lib['builtins.next'](ex, [o], {}))
        if name == '__iter__': return Builtin('iter', lambda ex, a, k: o)
    return None

# ------------------------------------------------------------------ types
@b('type.int')
def t_int(ex, a, k):
    if not a: return 0
    v = ex.force(a[0]); base = a[1] if len(a) > 1 else k.get('base')
    if isinstance(v, Fraction): return int(v)
    if isinstance(v, (bool, int)): return int(v)
    if isinstance(v, str):
        try: return int(v, base) if base is not None else int(v)
        except ValueError as e: ex.raise_('ValueError', str(e))
    if isinstance(v, Sym):
        if v.s == INT: return v
        if v.s == BOOL: return ex.toint(v)
        if v.s == REAL: return Sym(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)), INT)
        if v.s == STR and z3.is_app(v.t) and v.t.decl().name() == 'str_of_INT' and base in (None, 0, 10): return Sym(v.t.arg(0), INT)
        if v.s == STR:
            if not ex.decide(uf(ex, 'str_isint', [v, base], BOOL).t): ex.raise_('ValueError', 'invalid literal for int()')
            return uf(ex, 'str_int', [v, base], INT)
    if isinstance(v, Ext) and hasattr(v, 'py_int'): return v.py_int(ex)
    ex.raise_('TypeError', 'int() argument')
@b('type.float')
def t_float(ex, a, k):
    if not a: return Fraction(0)
    v = ex.force(a[0])
    if isinstance(v, (bool, int, Fraction)): return Fraction(v)
    if isinstance(v, str):
        try: f = float(v)
        except ValueError as e: ex.raise_('ValueError', str(e))
        if f != f or abs(f) == float('inf'): raise Unsupported('nan/inf')
        return Fraction(v.strip().replace('_', '')) if _re.fullmatch(r'\s*[-+]?\d+(\.\d*)?\s*', v) else frac(f)
    if isinstance(v, Sym):
        if v.s == REAL: return v
        if v.s in (INT, BOOL): return Sym(ex.term(v, REAL) if v.s == INT else z3.ToReal(ex.toint(v).t), REAL)
        if v.s == STR:
            if not ex.decide(uf(ex, 'str_isfloat', [v], BOOL).t): ex.raise_('ValueError', 'could not convert string to float')
            return uf(ex, 'str_float', [v], REAL)
    if isinstance(v, Ext) and hasattr(v, 'py_float'): return v.py_float(ex)
    ex.raise_('TypeError', 'float() argument')
@b('type.str')
def t_str(ex, a, k): return tostr(ex, a[0]) if a else ''
@b('builtins.repr')
def t_repr(ex, a, k): return repr_(ex, a[0])
@b('type.bool')
def t_bool(ex, a, k): return ex.mkbool(ex.truth(a[0])) if a else False
@b('type.list')
def t_list(ex, a, k):
    if not a: return ex.mklist()
    if isinstance(a[0], Ext) and hasattr(a[0], 'py_list'): return a[0].py_list(ex)
    return ex.seq_to_list(ex.seqof(a[0]))
@b('type.tuple')
def t_tuple(ex, a, k):
    if not a: return ()
    it = ex.seq_items(ex.seqof(a[0]))
    if it is None: return ex.seq_to_list(ex.seqof(a[0]))   # represented as a list
    return tuple(it)
@b('type.dict')
def t_dict(ex, a, k):
    if a and isinstance(a[0], VDict) and a[0].cell.items is None:
        d = VDict(ex.newcell('dict', comps=list(a[0].cell.comps), shape=a[0].cell.shape)); d.cell.enum = a[0].cell.enum
        for kk, v in k.items(): ex.dict_set(d, kk, v)
        return d
    d = ex.mkdict()
    if a:
        if not isinstance(a[0], VDict):
            sq = ex.seqof(a[0])
            if ex.seq_items(sq) is None:
                n = ex.term(ex.length(sq), INT); j = z3.Int(ex.fresh_name('dj'))
                kv, _ = ex.pure_value(lambda: sq.get(j), [j], z3.And(0 <= j, j < n))
                if not isinstance(kv, tuple): raise Unsupported('dict of symbolic pairs')
                return ex.dict_from_pairs(n, j, kv)
        dict_update(ex, d, a[0])
    for kk, v in k.items(): ex.dict_set(d, kk, v)
    return d
@b('type.set', 'type.frozenset')
def t_set(ex, a, k):
    s = ex.mkset()
    if not a: return s
    if isinstance(a[0], Ext) and hasattr(a[0], 'py_set'): return a[0].py_set(ex)
    if isinstance(a[0], VSet): return set_op(ex, '|', a[0], s) if a[0].cell.items is None else ex.mkset(a[0].cell.items)
    sq = ex.seqof(a[0]); items = ex.seq_items(sq)
    if items is not None:
        for x in items: set_add(ex, s, x)
        return s
    if getattr(sq, 'dict', None) is not None:
        d = sq.dict
        if isinstance(d, VDict): return VSet(ex.newcell('set', comps=[d.cell.comps[0]], shape=SetS(d.cell.shape.k)))
    l = ex.seq_to_list(sq)
    n, arr = l.cell.comps[0], l.cell.comps[1]
    if len(l.cell.comps) != 2: raise Unsupported('set of compound elements')
    return list_to_set(ex, n, arr, l.cell.shape.elem)
def list_to_set(ex, n, arr, es):
    srt = es.sorts()[0]
    dom = ex.fresh_term(z3.ArraySort(srt, B), 'lset')
    j = z3.Int(ex.fresh_name('lj')); x = z3.Const(ex.fresh_name('lx'), srt); w = ex.fresh_fun('lw', srt, I)
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(dom, z3.Select(arr, j))), patterns=[z3.Select(arr, j)]))
    ex.assume(z3.ForAll([x], z3.Implies(z3.Select(dom, x), z3.And(0 <= w(x), w(x) < n, z3.Select(arr, w(x)) == x)), patterns=[z3.Select(dom, x)]))
    return VSet(ex.newcell('set', comps=[dom], shape=SetS(es)))
@b('type.object')
def t_object(ex, a, k): return PyObj(ex, None)
@b('type.type')
def t_type(ex, a, k):
    v = a[0]
    if len(a) == 3:
        c = VClass(a[0] if isinstance(a[0], str) else 'dyn', None, list(a[1]))
        if isinstance(a[2], VDict):
            for kk, x in a[2].cell.items: c.attrs[kk] = x
        c.dynname = a[0]
        return c
    if isinstance(v, PyObj): return v.cls
    if isinstance(v, VRef): return VClassOf(v)
    for t in (bool, int, str, tuple):
        if isinstance(v, t): return PyType(t)
    if isinstance(v, VList): return PyType(list)
    if isinstance(v, VDict): return PyType(dict)
    if isinstance(v, VSet): return PyType(set)
    if isinstance(v, Sym):
        v = ex.force(v)
        t = {INT: int, REAL: float, BOOL: bool, STR: str}.get(v.s) if isinstance(v, Sym) else None
        if t: return PyType(t)
    if v is None: return PyType(type(None))
    raise Unsupported('type(%r)' % (v,))
@b('type.property')
def t_property(ex, a, k): raise Unsupported('property()')
@b('type.range', 'builtins.xrange')
def t_range(ex, a, k):
    a = [ex.force(x) for x in a]
    if all(isinstance(x, int) for x in a): 
        r = range(*a)
        if len(r) <= 64: return RangeV(0, 0, 1, items=list(r))
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if not isinstance(st, int) or st == 0: raise Unsupported('symbolic range step')
    return RangeV(lo, hi, st)
class RangeV(Ext):
    def __init__(self, lo, hi, st, items=None): self.lo, self.hi, self.st, self.items = lo, hi, st, items
    def n(self, ex):
        if self.items is not None: return len(self.items)
        l, h = ex.term(self.lo, INT), ex.term(self.hi, INT)
        if self.st > 0: t = z3.If(h > l, (h - l + (self.st - 1)) / self.st, z3.IntVal(0))
        else: t = z3.If(l > h, (l - h + (-self.st - 1)) / (-self.st), z3.IntVal(0))
        return ex.simp_int(t)
    def py_iter(self, ex):
        if self.items is not None: return Seq(items=self.items)
        l = ex.term(self.lo, INT)
        return Seq(n=self.n(ex), get=lambda j: ex.simp_int(l + self.st * j))
    def py_len(self, ex): return self.n(ex)
    def py_contains(self, ex, v):
        if self.items is not None: return ex.contains(tuple(self.items), v)
        v = ex.force(v)
        if not is_num(v): return False
        if self.st != 1: raise Unsupported('in range')
        return z3.And(ex.term(self.lo, INT) <= ex.term(v, INT), ex.term(v, INT) < ex.term(self.hi, INT))
    def py_truth(self, ex):
        n = self.n(ex); return n != 0 if isinstance(n, int) else n.t != 0
    def py_getitem(self, ex, k):
        if self.items is not None and isinstance(k, int): return self.items[k]
        return Sym(ex.term(self.lo, INT) + self.st * ex.term(k, INT), INT)

def seqs(ex, a):
    out = []
    for x in a:
        s = ex.seqof(x)
        if isinstance(s, VIter): s = ex.iter_rest(s)
        out.append(s)
    return out
@b('type.zip', 'builtins.zip', 'itertools.izip')
def t_zip(ex, a, k):
    ss = seqs(ex, a)
    its = [ex.seq_items(s) for s in ss]
    if all(i is not None for i in its): return VIter(ex, Seq(items=[tuple(x) for x in zip(*its)]))
    n = None
    for s in ss:
        t = ex.term(ex.length(s), INT)
        n = t if n is None else z3.simplify(z3.If(t < n, t, n)) if not z3.eq(z3.simplify(t), z3.simplify(n)) else n
    gets = [sget(ex, s) for s in ss]
    return VIter(ex, Seq(n=ex.simp_int(n), get=lambda j: tuple(g(j) for g in gets)))
def sget(ex, s):
    if s.items is None: return s.get
    l = ex.mklist(s.items); ex.make_sym(l)
    return lambda j: ex.lget(l, j)
@b('type.enumerate')
def t_enumerate(ex, a, k):
    s = seqs(ex, a[:1])[0]; st = a[1] if len(a) > 1 else k.get('start', 0)
    its = ex.seq_items(s)
    if its is not None: return VIter(ex, Seq(items=[(ex.binop('+', i, st), x) for i, x in enumerate(its)]))
    r = Seq(n=s.n, get=lambda j: (ex.simp_int(j + ex.term(st, INT)), s.get(j))); r.inv = s.inv
    return VIter(ex, r)
@b('type.map', 'builtins.map', 'past.builtins.map')
def t_map(ex, a, k):
    f = a[0]; ss = seqs(ex, a[1:])
    its = [ex.seq_items(s) for s in ss]
    if all(i is not None for i in its): return VIter(ex, Seq(items=[ex.call(f, list(x), {}) for x in zip(*its)]))
    if len(ss) != 1: raise Unsupported('map over several symbolic sequences')
    s = ss[0]
    return LazySeq(ex, ex.term(ex.length(s), INT), lambda j: ex.call(f, [s.get(j)], {}))
@b('type.filter', 'builtins.filter', 'past.builtins.filter')
def t_filter(ex, a, k):
    f = a[0]; s = seqs(ex, a[1:])[0]
    test = (lambda x: ex.truth(x)) if f is None else (lambda x: ex.truth(ex.call(f, [x], {})))
    its = ex.seq_items(s)
    if its is not None: return VIter(ex, Seq(items=[x for x in its if ex.decide(test(x))]))
    return LazySeq(ex, ex.term(ex.length(s), INT), s.get, lambda j: ex.mkbool(test(s.get(j))))
@b('type.reversed')
def t_reversed(ex, a, k):
    s = seqs(ex, a)[0]; its = ex.seq_items(s)
    if its is not None: return VIter(ex, Seq(items=its[::-1]))
    n = ex.term(ex.length(s), INT)
    return VIter(ex, Seq(n=s.n, get=lambda j: s.get(z3.simplify(n - 1 - j))))
@b('builtins.reversed_list')
def reversed_list(ex, a, k): return ex.seq_to_list(t_reversed(ex, a, k))

# ------------------------------------------------------------------ functions
@b('builtins.len')
def f_len(ex, a, k): return ex.length(ex.force(a[0]) if not isinstance(a[0], Ext) else a[0])
@b('builtins.isinstance')
def f_isinstance(ex, a, k):
    v, t = a
    if isinstance(t, tuple):
        return ex.mkbool(ex.Or(*[tbool(f_isinstance(ex, [v, x], k)) for x in t]))
    return ex.mkbool(isinst(ex, v, t))
def isinst(ex, v, t):
    if isinstance(v, VOpt): v = ex.force(v)
    if isinstance(t, Builtin) and t.name in ('basestring', 'past.builtins.basestring'): t = PyType(str)
    if isinstance(v, Sym) and v.s == PV:
        P = S_PV; x = v.t
        if isinstance(t, PyType):
            if t.t is str: return P.is_pstr(x)
            if t.t is bool: return P.is_pbool(x)
            if t.t is int: return z3.Or(P.is_pint(x), P.is_pbool(x))
            if t.t is float: return P.is_preal(x)
            if t.t in (list, dict, set, tuple): return False
            if t.t is object: return True
        if isinstance(t, (VClass,)): return False
        raise Unsupported('isinstance of a dynamic value')
    if isinstance(t, PyType):
        ty = t.t
        if ty is object: return True
        if isinstance(v, Ext): return v.py_isinstance(ex, ty) if hasattr(v, 'py_isinstance') else False
        if ty is str: return is_strv(v)
        if ty is bool: return is_boolv(v)
        if ty is int: return isinstance(v, int) or isinstance(v, Sym) and v.s in (INT, BOOL)
        if ty is float: return isinstance(v, Fraction) or isinstance(v, Sym) and v.s == REAL
        if ty is list: return isinstance(v, VList)
        if ty is dict: return isinstance(v, VDict)
        if ty in (set, frozenset): return isinstance(v, VSet)
        if ty is tuple: return isinstance(v, tuple)
        if ty is type: return isinstance(v, (VClass, PyType))
        if issubclass(ty, BaseException): return isinstance(v, VExc) and ex.exc_matches(v, t)
        return False
    if isinstance(t, VClass):
        if isinstance(v, PyObj): return v.cls is not None and t in v.cls.mro()
        if isinstance(v, VExc): return ex.exc_matches(v, t)
        if isinstance(v, VRef):
            d = ex.classes.get(v.cls, {}); c = v.cls
            while c is not None:
                d = ex.classes.get(c, {})
                if d.get('src') is not None and t in d['src'].mro(): return True
                c = d.get('base')
            return False
        return False
    if isinstance(t, (ModRef, Builtin)):
        if isinstance(v, Ext) and hasattr(v, 'py_isinstance'): return v.py_isinstance(ex, t.name)
        if isinstance(v, Ext): raise Unsupported('isinstance(%r, %r)' % (v, t))
        return False
    raise Unsupported('isinstance(%r, %r)' % (v, t))
@b('builtins.issubclass')
def f_issubclass(ex, a, k):
    c, t = a
    if isinstance(c, VClass) and isinstance(t, VClass): return t in c.mro()
    raise Unsupported('issubclass')
@b('builtins.callable')
def f_callable(ex, a, k):
    v = ex.force(a[0]) if isinstance(a[0], VOpt) else a[0]
    if isinstance(v, (VFunc, VBound, Builtin, VClass, PyType)): return True
    if isinstance(v, Ext) and hasattr(v, 'py_callable'): return v.py_callable(ex)
    if isinstance(v, PyObj): return ex.class_lookup(v.cls, '__call__') is not None
    return False
@b('builtins.hasattr')
def f_hasattr(ex, a, k): return ex.hasattr_(a[0], a[1])
@b('builtins.getattr')
def f_getattr(ex, a, k):
    if not isinstance(a[1], str):
        if hasattr(a[0], 'py_getattr_sym'): return a[0].py_getattr_sym(ex, a[1], *a[2:])
        raise Unsupported('getattr with a symbolic name')
    if len(a) == 2: return ex.getattr(a[0], a[1])
    try: return ex.getattr(a[0], a[1])
    except PyRaise as e:
        if ex.exc_matches(e.exc, PyType(AttributeError)): return a[2]
        raise
@b('builtins.setattr')
def f_setattr(ex, a, k):
    if not isinstance(a[1], str):
        if hasattr(a[0], 'py_setattr_sym'): return a[0].py_setattr_sym(ex, a[1], a[2])
        raise Unsupported('setattr with a symbolic name')
    ex.setattr(a[0], a[1], a[2])
def minmax(ex, a, k, op):
    key = k.get('key'); kf = (lambda x: ex.call(key, [x], {})) if key is not None else (lambda x: x)
    if len(a) == 1:
        s = seqs(ex, a)[0]; its = ex.seq_items(s)
        if its is None:
            n = ex.term(ex.length(s), INT)
            if ex.decide(n <= 0):
                if 'default' in k: return k['default']
                ex.raise_('ValueError', 'empty sequence')
            i = ex.fresh_term(I, 'mi'); j = z3.Int(ex.fresh_name('mj'))
            ex.assume(z3.And(0 <= i, i < n))
            best = kf(s.get(i))
            bv, _ = ex.pure_value(lambda: ex.mkbool(ex.order('>=' if op == '<' else '<=', kf(s.get(j)), best)), [j], z3.And(0 <= j, j < n))
            from .execute import jterms
            pt = jterms(j, ex.term(s.get(j), ex.shape_of(s.get(j))) if not isinstance(s.get(j), tuple) else tbool(bv))
            ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), tbool(bv)), **(dict(patterns=pt) if pt else {})))
            return s.get(i)
        if not its:
            if 'default' in k: return k['default']
            ex.raise_('ValueError', 'empty sequence')
    else: its = list(a)
    best = its[0]
    for x in its[1:]:
        bk, xk = ex.force(kf(best)), ex.force(kf(x))
        c = ex.order(op, xk, bk)
        if isinstance(c, bool): best = x if c else best
        elif key is None and is_num(x) and is_num(best):
            u, v, sh = ex.num2(x, best); best = Sym(z3.simplify(z3.If(tbool(c), u, v)), sh)
        else: best = x if ex.decide(c) else best
    return best
@b('builtins.min')
def f_min(ex, a, k): return minmax(ex, a, k, '<')
@b('builtins.max')
def f_max(ex, a, k): return minmax(ex, a, k, '>')
@b('builtins.abs')
def f_abs(ex, a, k):
    v = ex.force(a[0])
    if isinstance(v, (int, Fraction)): return abs(v)
    if isinstance(v, Ext): return v.py_unary(ex, 'abs')
    return Sym(z3.If(v.t >= 0, v.t, -v.t), v.s)
@b('builtins.sum')
def f_sum(ex, a, k):
    s = seqs(ex, a[:1])[0]; its = ex.seq_items(s); r = a[1] if len(a) > 1 else k.get('start', 0)
    if its is not None:
        for x in its: r = ex.binop('+', r, x)
        return r
    # symbolic: partial sums
    n = ex.term(ex.length(s), INT)
    l = ex.seq_to_list(s); el = ex.seqof(l)
    sh = l.cell.shape.elem
    sh = INT if sh in (INT, BOOL) else REAL
    arr = l.cell.comps[1]
    S = ex.fresh_fun('psum', I, sh.sort); j = z3.Int(ex.fresh_name('sj'))
    elt = ex.term(el.get(j), sh)
    ex.assume(S(0) == 0)
    ex.assume(z3.ForAll([j], z3.Implies(j >= 0, S(j + 1) == S(j) + elt), patterns=[S(j + 1)]))
    ex.assume(z3.ForAll([j], z3.Implies(j >= 0, S(j + 1) == S(j) + elt), patterns=[S(j)]))
    return ex.binop('+', r, Sym(S(n), sh))
def count_where(ex, s, test):
    n = ex.term(ex.length(s), INT)
    S = ex.fresh_fun('cnt', I, I); j = z3.Int(ex.fresh_name('sj'))
    t = tbool(test(s.get(j)))
    ex.assume(S(0) == 0)
    ex.assume(z3.ForAll([j], z3.Implies(j >= 0, S(j + 1) == S(j) + z3.If(t, z3.IntVal(1), z3.IntVal(0))), patterns=[S(j + 1)]))
    return Sym(S(n), INT)
def anyall(ex, a, isany):
    v = a[0]
    if isinstance(v, LazySeq):
        j = z3.Int(ex.fresh_name('aj')); dom = z3.And(0 <= j, j < v.n)
        if v.test is not None:
            tv, _ = ex.pure_value(lambda: v.test(j), [j], dom); dom = z3.And(dom, tbool(tv))
        r, _ = ex.pure_value(lambda: ex.mkbool(ex.truth(v.get(j))), [j], dom)
        return ex.mkbool(z3.Exists([j], z3.And(dom, tbool(r))) if isany else z3.ForAll([j], z3.Implies(dom, tbool(r))))
    s = seqs(ex, a)[0]; its = ex.seq_items(s)
    if its is not None:
        return ex.mkbool((ex.Or if isany else ex.And)(*[ex.truth(x) for x in its]))
    n = ex.term(ex.length(s), INT); j = z3.Int(ex.fresh_name('aj'))
    t = tbool(ex.truth(s.get(j)))
    return ex.mkbool(z3.Exists([j], z3.And(0 <= j, j < n, t)) if isany else z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), t)))
@b('builtins.any')
def f_any(ex, a, k): return anyall(ex, a, True)
@b('builtins.all')
def f_all(ex, a, k): return anyall(ex, a, False)
@b('builtins.sorted')
def f_sorted(ex, a, k):
    s = seqs(ex, a)[0]; its = ex.seq_items(s)
    key = k.get('key'); rev = k.get('reverse', False)
    kf = (lambda x: ex.call(key, [x], {})) if key is not None else (lambda x: x)
    if its is not None:
        out = []
        for x in its:      # stable insertion sort
            kx = kf(x); i = len(out)
            while i > 0:
                c = ex.order('<' if not rev else '>', kx, out[i-1][0])
                if not ex.decide(c): break
                i -= 1
            out.insert(i, (kx, x))
        return ex.mklist([x for _, x in out])
    # symbolic: an ordered permutation, stable
    if rev: raise Unsupported('sorted reverse')
    n = ex.term(ex.length(s), INT)
    P = ex.fresh_fun('perm', I, I); Q = ex.fresh_fun('pinv', I, I)
    i = z3.Int(ex.fresh_name('si')); j = z3.Int(ex.fresh_name('sj'))
    inr = lambda x: z3.And(0 <= x, x < n)
    ex.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(P(i)), Q(P(i)) == i)), patterns=[P(i)]))
    ex.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(Q(i)), P(Q(i)) == i)), patterns=[Q(i)]))
    r = ex.build_list(Sym(n, INT), lambda q: s.get(P(q)))
    sq = ex.seqof(r)
    le, _ = ex.pure_value(lambda: ex.mkbool(ex.order('<=', kf(sq.get(i)), kf(sq.get(j)))), [i, j], z3.And(inr(i), inr(j)))
    ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), tbool(le)), patterns=[z3.MultiPattern(P(i), P(j))]))
    eqk, _ = ex.pure_value(lambda: ex.mkbool(ex.eq(kf(sq.get(i)), kf(sq.get(j)))), [i, j], z3.And(inr(i), inr(j)))
    ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n, tbool(eqk)), P(i) < P(j)), patterns=[z3.MultiPattern(P(i), P(j))]))
    j2 = z3.Int(ex.fresh_name('sq'))
    for c in r.cell.comps[1:]:
        ex.assume(z3.ForAll([j2], z3.Implies(inr(j2), inr(P(j2))), patterns=[z3.Select(c, j2)])); break
    return r
@b('builtins.iter')
def f_iter(ex, a, k):
    s = ex.seqof(a[0])
    return s if isinstance(s, VIter) else VIter(ex, s)
@b('builtins.next')
def f_next(ex, a, k):
    it = a[0]
    if isinstance(it, PyObj):
        m = ex.class_lookup(it.cls, '__next__') or ex.class_lookup(it.cls, 'next')
        return ex.call(VBound(m, it), [], {})
    if isinstance(it, LazySeq): it = VIter(ex, it.py_iter(ex))
    if isinstance(it, Ext) and hasattr(it, 'py_next'): return it.py_next(ex)
    if not isinstance(it, VIter): raise Unsupported('next of %r' % (it,))
    n = ex.length(it.seq); p = it.posn
    more = ex.order('<', p, n)
    if not ex.decide(more):
        if len(a) > 1: return a[1]
        ex.raise_('StopIteration')
    if it.seq.items is not None and isinstance(p, int): x = it.seq.items[p]
    else: x = sget(ex, it.seq)(ex.term(p, INT))
    if ex.purity and it.birth < ex.purity[-1]: raise SideEffect('iterator advance in a pure context')
    ex.loop_write(it.birth, ('it', it.label))
    it.posn = ex.binop('+', p, 1)
    return x
@b('builtins.print')
def f_print(ex, a, k): return None
@b('builtins.round')
def f_round(ex, a, k):
    v = ex.force(a[0])
    if len(a) == 1 and isinstance(v, (int, Fraction)): return round(v)
    return uf(ex, 'round', a, INT if len(a) == 1 else REAL)
@b('builtins.bin')
def f_bin(ex, a, k):
    v = ex.force(a[0])
    if isinstance(v, int): return bin(v)
    return uf(ex, 'bin', [v], STR)
@b('builtins.hex')
def f_hex(ex, a, k):
    v = ex.force(a[0])
    return hex(v) if isinstance(v, int) else uf(ex, 'hex', [v], STR)
@b('builtins.ord')
def f_ord(ex, a, k): return ord(a[0]) if isinstance(a[0], str) else uf(ex, 'ord', a, INT)
@b('builtins.divmod')
def f_divmod(ex, a, k): return (ex.binop('//', *a), ex.binop('%', *a))
@b('builtins.pow')
def f_pow(ex, a, k): return ex.binop('**', *a)
@b('builtins.id')
def f_id(ex, a, k): return ex.fresh(INT, 'id')
@b('builtins.vars')
def f_vars(ex, a, k):
    if isinstance(a[0], PyObj): return ex.mkdict([[n, v] for n, v in a[0].attrs.items()])
    raise Unsupported('vars')

# ------------------------------------------------------------------ standard library
lib['past.builtins.basestring'] = PyType(str)
lib['six.string_types'] = (PyType(str),)
@b('warnings.warn', 'warnings.simplefilter', 'warnings.filterwarnings')
def w_warn(ex, a, k):
    if 'warnings' in ex.ghosts: ex.ghost_set('warnings', ex.binop('+', ex.ghosts['warnings'], 1))
    return None
@b('collections.defaultdict')
def c_defaultdict(ex, a, k):
    d = ex.mkdict(); d.default = a[0] if a else None
    if len(a) > 1: dict_update(ex, d, a[1])
    return d
@b('collections.OrderedDict')
def c_odict(ex, a, k): return t_dict(ex, a, k)
@b('math.ceil')
def m_ceil(ex, a, k):
    v = ex.force(a[0])
    if isinstance(v, (int, Fraction)): return -((-v.numerator) // v.denominator)
    if v.s == INT: return v
    return Sym(-z3.ToInt(-v.t), INT)
@b('math.floor')
def m_floor(ex, a, k):
    v = ex.force(a[0])
    if isinstance(v, (int, Fraction)): return v.numerator // v.denominator
    if v.s == INT: return v
    return Sym(z3.ToInt(v.t), INT)
@b('itertools.chain')
def i_chain(ex, a, k):
    l = ex.mklist()
    for x in a: list_extend(ex, l, x)
    return VIter(ex, ex.seqof(l))
@b('itertools.chain.from_iterable')
def i_chainfrom(ex, a, k):
    return i_chain(ex, ex.need_items(a[0]), {})
@b('itertools.product')
def i_product(ex, a, k):
    import itertools
    its = [ex.need_items(x) for x in a]
    return VIter(ex, Seq(items=[tuple(p) for p in itertools.product(*its)]))
@b('itertools.combinations')
def i_combinations(ex, a, k):
    import itertools
    s = ex.seqof(a[0])
    if isinstance(s, VIter): s = ex.iter_rest(s)
    r = a[1] if len(a) > 1 else k.get('r'); its = ex.seq_items(s)
    if its is not None and isinstance(r, int): return VIter(ex, Seq(items=[tuple(p) for p in itertools.combinations(its, r)]))
    if r != 2: raise Unsupported('itertools.combinations')
    # every pair of positions i < j has its number; pairs in any order
    n = ex.term(ex.length(s), INT); m = ex.fresh_term(I, 'pairs'); F, S = ex.fresh_fun('pair_i', I, I), ex.fresh_fun('pair_j', I, I)
    N = ex.fresh_fun('pair_no', I, I, I); c, i, j = (z3.Int(ex.fresh_name(x)) for x in ('pc', 'pi', 'pj'))
    ex.assume(m >= 0)
    ex.assume(z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < m), z3.And(0 <= F(c), F(c) < S(c), S(c) < n, N(F(c), S(c)) == c)), patterns=[F(c)]))
    ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.And(0 <= N(i, j), N(i, j) < m, F(N(i, j)) == i, S(N(i, j)) == j)), patterns=[N(i, j)]))
    q = Seq(n=Sym(m, INT), get=lambda c: (s.get(F(c)), s.get(S(c)))); q.pairs = (F, S, N, s)
    return VIter(ex, q)
@b('itertools.count')
def i_count(ex, a, k): raise Unsupported('itertools.count')
@b('itertools.takewhile')
def i_takewhile(ex, a, k):
    f = a[0]; s = seqs(ex, a[1:])[0]; its = ex.seq_items(s)
    if its is not None:
        out = []
        for x in its:
            if not ex.cond(ex.call(f, [x], {})): break
            out.append(x)
        return VIter(ex, Seq(items=out))
    n = ex.term(ex.length(s), INT); j = z3.Int(ex.fresh_name('tw'))
    t, _ = ex.pure_value(lambda: ex.mkbool(ex.truth(ex.call(f, [s.get(j)], {}))), [j], z3.And(0 <= j, j < n))
    T = ex.fresh_fun('twp', I, B)
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), T(j) == tbool(t)), patterns=[T(j)]))
    m = ex.fresh_term(I, 'twn')
    ex.assume(z3.And(0 <= m, m <= n, z3.Implies(m < n, z3.Not(T(m)))))
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), T(j)), patterns=[T(j)]))
    r = Seq(n=Sym(m, INT), get=s.get); r.takewhile = (T, m)
    return VIter(ex, r)
@b('itertools.dropwhile')
def i_dropwhile(ex, a, k):
    f = a[0]; s = seqs(ex, a[1:])[0]; its = ex.seq_items(s)
    if its is not None:
        its = list(its)
        while its and ex.cond(ex.call(f, [its[0]], {})): its.pop(0)
        return VIter(ex, Seq(items=its))
    n = ex.term(ex.length(s), INT); j = z3.Int(ex.fresh_name('dw'))
    t, _ = ex.pure_value(lambda: ex.mkbool(ex.truth(ex.call(f, [s.get(j)], {}))), [j], z3.And(0 <= j, j < n))
    T = ex.fresh_fun('dwp', I, B)
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), T(j) == tbool(t)), patterns=[T(j)]))
    m = ex.fresh_term(I, 'dwn')
    ex.assume(z3.And(0 <= m, m <= n, z3.Implies(m < n, z3.Not(T(m)))))
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), T(j)), patterns=[T(j)]))
    return VIter(ex, Seq(n=Sym(n - m, INT), get=lambda j: s.get(j + m)))
@b('copy.copy')
def c_copy(ex, a, k):
    v = a[0]
    if isinstance(v, VList): return ex.seq_to_list(ex.seqof(v))
    if isinstance(v, VDict): return t_dict(ex, [v], {})
    if isinstance(v, VSet): return t_set(ex, [v], {})
    if isinstance(v, CONC + (tuple, Sym)): return v
    if isinstance(v, Ext) and hasattr(v, 'py_copy'): return v.py_copy(ex)
    raise Unsupported('copy of %r' % (v,))
@b('copy.deepcopy')
def c_deepcopy(ex, a, k):
    v = a[0]
    def dc(v):
        if isinstance(v, VList) and v.cell.items is not None: return ex.mklist([dc(x) for x in v.cell.items])
        if isinstance(v, VDict) and v.cell.items is not None: return ex.mkdict([[kk, dc(x)] for kk, x in v.cell.items])
        return c_copy(ex, [v], {})
    return dc(v)
