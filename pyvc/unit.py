"""A unit is one group of contracts proved together: setup() installs callee contracts and loop templates,
script() calls the code under proof for arbitrary arguments and states its postconditions."""
import time
from . import *

class Unit:
    name = ''
    functions = ()          # functions of /repo under contract in this unit
    assumes = ()            # assumed contracts, in words
    budget = 120
    split = 0               # 2**split processes share the paths
    def setup(self, ex): pass
    def script(self, ex): raise NotImplementedError

def map_loop(shape, elem):
    """loop template: a list of this shape holds elem(0), elem(1), ... of the iterations so far, appended one by one or written in place"""
    def tmpl(ctx):
        if ctx.seq is None: return []
        out = []
        def comps(c, v): return v.cell.comps if v.cell.items is None else c.ex.pack(v, shape)
        for l in ctx.labels:
            if ctx.info.mod[l] != shape: continue
            def holds(c, l=l):
                v = c.cur(l)
                if not isinstance(v, VList): return z3.BoolVal(True)
                n, *A = comps(c, v); j = z3.Int('mj')
                return z3.And(n == c.k, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(*[z3.Select(a, j) == e for a, e in zip(A, elem(j))])), patterns=[z3.Select(a, j) for a in A if z3.is_const(a)]))
            def inplace(c, l=l):
                v, e0 = c.cur(l), c.entry[l]
                if not isinstance(v, VList) or not isinstance(e0, VList): return z3.BoolVal(True)
                n, *A = comps(c, v); n0, *A0 = comps(c, e0); j = z3.Int('mj')
                return z3.And(n == n0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(*[z3.Select(a, j) == z3.If(j < c.k, e, z3.Select(b, j)) for a, b, e in zip(A, A0, elem(j))])), patterns=[z3.Select(a, j) for a in A if z3.is_const(a)]))
            out += [(('mapped so far', l), holds), (('mapped in place so far', l), inplace)]
        return out
    return tmpl

def dict_loop(ctx):
    """loop template: a dict holds, besides what it held before, the pairs iterated over so far"""
    if ctx.seq is None or ctx.seq.inv is None: return []
    out = []
    for l in ctx.labels:
        sh = ctx.info.mod[l]
        if l[0] != 'c' or not isinstance(sh, DictS) or not isinstance(ctx.entry.get(l), VDict): continue
        def f(c, l=l, sh=sh):
            ex, inv = c.ex, c.seq.inv
            D0, *V0 = ex.pack(ctx.entry[l], sh); D, *V = ex.pack(c.cur(l), sh); x = z3.Const('dlk', D.domain())
            p = c.seq.get(inv.pos(x))
            if not (isinstance(p, tuple) and len(p) == 2): return z3.BoolVal(True)
            new = z3.And(inv.member(x), inv.pos(x) < c.k)
            return z3.ForAll([x], z3.And(z3.Select(D, x) == z3.Or(z3.Select(D0, x), new), *[z3.Select(a, x) == z3.If(new, v, z3.Select(a0, x)) for a, a0, v in zip(V, V0, ex.pack(p[1], sh.v))]), patterns=[z3.Select(a, x) for a in [D] + V if z3.is_const(a)] or [inv.pos(x)])
        out.append((('filled', l), f))
    return out

class FilterLoop:
    """loop template: a list of this shape holds, in order, elem(j) of the iterations j so far with cond(j); define() says what they are"""
    def __init__(self, ex, shape): self.shape, self.n = shape, None; ex.templates.append(self.tmpl)
    def define(self, ex, n, cond, elem, pats=None):
        self.n, self.cond, self.elem, self.pats = n, cond, elem, pats
        self.cnt, self.P, self.Q = (ex.fresh_fun(x, I, I) for x in ('kept_before', 'kept_from', 'kept_at')); k = z3.Int('flk')
        ex.assume(self.cnt(0) == 0)
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(self.cnt(k) >= 0, self.cnt(k + 1) == self.cnt(k) + z3.If(cond(k), 1, 0))), patterns=[self.cnt(k + 1)]))
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, cond(k)), z3.And(self.P(self.cnt(k)) == k, self.Q(k) == self.cnt(k))), patterns=[self.cnt(k)]))
    def tmpl(self, ctx):
        if ctx.seq is None or self.n is None: return []
        out = []
        for l in ctx.labels:
            if ctx.info.mod[l] != self.shape: continue
            def f(c, l=l, what=None):
                v = c.cur(l)
                if not isinstance(v, VList): return z3.BoolVal(True)
                m, *A = v.cell.comps if v.cell.items is None else c.ex.pack(v, self.shape); a, b, j = z3.Ints('fla flb flj'); P, Q = self.P, self.Q
                return z3.And(c.n == self.n, m == self.cnt(c.k), m >= 0,
                              z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < m), z3.And(0 <= P(a), P(a) < c.k, self.cond(P(a)), Q(P(a)) == a, *[z3.Select(x, a) == e for x, e in zip(A, self.elem(P(a)))])), patterns=[P(a)] + [z3.Select(x, a) for x in A if z3.is_const(x)]),
                              z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < m), P(a) < P(b)), patterns=[z3.MultiPattern(P(a), P(b))]),
                              z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c.k, self.cond(j)), z3.And(0 <= Q(j), Q(j) < m, P(Q(j)) == j)), patterns=[Q(j)] + (self.pats(j) if self.pats else [])))
            out.append((('kept so far', l), f))
        return out

def new_ex(name, backend, repo='/repo', log=None):
    ex = Exec(name, backend, repo=repo, lib=dict(lib), log=log)
    return ex

def run_unit(u, repo='/repo', tier='quick', log=None):
    be = Backend(tmo=8000 if tier == 'quick' else 30000, deep=(tier == 'thorough'))
    ex = new_ex(u.name, be, repo, log)
    t0 = time.time()
    try:
        u.setup(ex)
        b = u.budget if tier == 'quick' else u.budget * 3
        if u.split: ex.run_parallel(u.script, b, u.split)
        else: ex.run(u.script, b)
        errs = list(ex.errors)
        obls = ex.obls
        if not obls and not errs: errs.append('no obligation was generated')
    except Exception as e:
        import traceback
        obls, errs = ex.obls if hasattr(ex, 'obls') else [], ['engine error: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])]
    byname = {}
    for o in obls:
        d = byname.setdefault(o.name, dict(name=o.name, n=0, proved=0, backends={}, secs=0.0, bad=[]))
        d['n'] += 1; d['secs'] += o.secs
        if o.status == 'proved':
            d['proved'] += 1; d['backends'][o.backend] = d['backends'].get(o.backend, 0) + 1
        else: d['bad'].append((o.status, o.detail[:8000]))
    return dict(unit=u.name, obligations=list(byname.values()), errors=errs, secs=time.time() - t0,
                functions=list(u.functions), inlined=sorted(ex.inlined), specced=sorted(ex.specced),
                paths=getattr(ex, 'npaths', 0), restarts=getattr(ex, 'restarts', 0),
                assumes=list(u.assumes) + sorted(ex.assumptions), z3=be.time['z3'], cvc5=be.time['cvc5'], cross=be.cross)
