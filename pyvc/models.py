"""pyvc: assumed contracts shared by the units (regular expressions, files, paths)."""
from . import *
import re as _re

class Match(Ext):
    """a successful match: groups are functions of the pattern, the subject and the way of matching"""
    def __init__(self, how, pat, s): self.how, self.pat, self.s = how, pat, s
    def grp(self, ex, i):
        p = _re.compile(self.pat)
        if isinstance(i, str): 
            if i not in p.groupindex: ex.raise_('IndexError', 'no such group')
            i = p.groupindex[i]
        if not isinstance(i, int): raise Unsupported('symbolic group number')
        if i > p.groups: ex.raise_('IndexError', 'no such group')
        t = uf(ex, 're_group:%s:%s:%d' % (self.how, self.pat, i), [self.s], STR)
        if i == 0 or always_set(self.pat, i): return t
        return VOpt(z3.Not(uf(ex, 're_has:%s:%s:%d' % (self.how, self.pat, i), [self.s], BOOL).t), [t.t], STR)
    def py_getattr(self, ex, n):
        if n == 'group': return Builtin(n, lambda ex, a, k: self.grp(ex, a[0] if a else 0) if len(a) < 2 else tuple(self.grp(ex, x) for x in a))
        if n == 'groups': return Builtin(n, lambda ex, a, k: tuple(self.grp(ex, i + 1) for i in range(_re.compile(self.pat).groups)))
        if n == 'groupdict': return Builtin(n, lambda ex, a, k: ex.mkdict([[g, self.grp(ex, g)] for g in _re.compile(self.pat).groupindex]))
        if n == 'string': return self.s
        if n in ('start', 'end'): return Builtin(n, lambda ex, a, k: uf(ex, 're_%s:%s:%s:%s' % (n, self.how, self.pat, a[0] if a else 0), [self.s], INT))
        return super().py_getattr(ex, n)
    def py_getitem(self, ex, k): return self.grp(ex, k)
def always_set(pat, i):
    """group i takes part in every match"""
    import re._parser as P, re._constants as C
    def go(seq):
        for op, a in seq:
            if op is C.SUBPATTERN:
                if a[0] == i: return True
                if go(a[3]): return True
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT) and a[0] >= 1 and go(a[2]): return True
            elif op is C.ATOMIC_GROUP and go(a): return True
            elif op is C.BRANCH and all(go(x) for x in a[1]): return True
        return False
    return go(P.parse(pat))
def has(ex, how, pat, s):
    """term: does the pattern match"""
    if isinstance(s, str): return z3.BoolVal(getattr(_re, how)(pat, s) is not None)
    return uf(ex, 're_%s:%s' % (how, pat), [s], BOOL).t
def do_match(ex, how, pat, s):
    s = ex.force(s)
    if isinstance(pat, Pattern): pat = pat.pat
    if not isinstance(pat, str): raise Unsupported('symbolic pattern')
    if not is_strv(s): ex.raise_('TypeError', 'expected string')
    if isinstance(s, str):
        m = getattr(_re, how)(pat, s)
        if m is None: return None
        return CMatch(m)
    if not ex.decide(has(ex, how, pat, s)): return None
    return Match(how, pat, s)
class CMatch(Ext):
    def __init__(self, m): self.m = m
    def py_getattr(self, ex, n):
        if n in ('group', 'groups', 'groupdict', 'start', 'end', 'span'): return Builtin(n, lambda ex, a, k: conv_(ex, getattr(self.m, n)(*a)))
        return super().py_getattr(ex, n)
def conv_(ex, v):
    from .lib import conv
    return conv(ex, v)
def do_sub(ex, pat, rep, s):
    s = ex.force(s)
    if isinstance(pat, Pattern): pat = pat.pat
    if not isinstance(pat, str) or not isinstance(rep, str): raise Unsupported('symbolic substitution')
    if isinstance(s, str): return _re.sub(pat, rep, s)
    return uf(ex, 're_sub:%s:%s' % (pat, rep), [s], STR)
class Pattern(Ext):
    def __init__(self, pat): self.pat = pat
    def py_getattr(self, ex, n):
        if n in ('match', 'search', 'fullmatch'): return Builtin(n, lambda ex, a, k: do_match(ex, n, self.pat, a[0]))
        if n == 'sub': return Builtin(n, lambda ex, a, k: do_sub(ex, self.pat, a[0], a[1]))
        if n == 'findall': return Builtin(n, lambda ex, a, k: do_findall(ex, self.pat, a[0]))
        if n == 'pattern': return self.pat
        return super().py_getattr(ex, n)
def do_findall(ex, pat, s):
    if isinstance(pat, Pattern): pat = pat.pat
    g = _re.compile(pat).groups
    sh = ListS(STR if g <= 1 else TupleS(*[STR] * g))
    return uf(ex, 're_findall:%s' % pat, [ex.force(s)], sh)
class FindIter(Ext):
    """the matches of a pattern in a string, in order: number and positions are functions of both"""
    def __init__(self, pat, s): self.pat, self.s = pat, s
def install_re(ex, compiled=True):
    for how in ('match', 'search', 'fullmatch'):
        ex.specs['re.' + how] = lambda ex, a, k, how=how: do_match(ex, how, a[0], a[1])
    ex.specs['re.sub'] = lambda ex, a, k: do_sub(ex, a[0], a[1], a[2])
    ex.specs['re.findall'] = lambda ex, a, k: do_findall(ex, a[0], a[1])
    def comp(ex, a, k):
        if not isinstance(a[0], str) or len(a) > 1 or k: raise Unsupported('re.compile')
        return Pattern(a[0])
    ex.specs['re.compile'] = comp

class File(Ext):
    """an open file: its content is a function of the path (nothing else writes it meanwhile)"""
    def __init__(self, path, mode='r'): self.path, self.mode = path, mode
    def content(self, ex): return uf(ex, 'file_content', [self.path], STR)
    def py_getattr(self, ex, n):
        if n == '__enter__': return Builtin(n, lambda ex, a, k: self)
        if n == '__exit__': return Builtin(n, lambda ex, a, k: False)
        if n == 'read': return Builtin(n, lambda ex, a, k: self.content(ex))
        if n == 'close': return Builtin(n, lambda ex, a, k: None)
        return super().py_getattr(ex, n)
def install_files(ex, cls=File):
    def open_(ex, a, k):
        if k.get('encoding') not in (None, 'utf-8', 'utf8', 'UTF-8'): raise Unsupported('encoding')
        return cls(a[0], (a[1] if len(a) > 1 else k.get('mode', 'r')))
    ex.specs['builtins.open'] = open_
    ex.specs['os.path.isdir'] = lambda ex, a, k: uf(ex, 'path_isdir', [ex.force(a[0])], BOOL)
    ex.specs['os.path.isfile'] = lambda ex, a, k: uf(ex, 'path_isfile', [ex.force(a[0])], BOOL)
    ex.specs['os.path.exists'] = lambda ex, a, k: uf(ex, 'path_exists', [ex.force(a[0])], BOOL)
    ex.specs['os.path.join'] = pjoin
def pjoin(ex, a, k):
    r = a[0]
    for x in a[1:]: r = uf(ex, 'path_join', [ex.force(r), ex.force(x)], STR)
    return r
class Opaque(Ext):
    """something that is only passed on"""
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Opaque(%s)' % self.name
def rxprove(ex, name, pat, how, spec, **kw):
    """an obligation about a regular expression of the code, decided for all strings (pyvc/rx.py)"""
    import time
    from . import rx
    t = time.time()
    if isinstance(pat, Pattern): pat = pat.pat
    v = rx.decide(pat, how, spec, **kw)
    ex.covers[name] = True
    det = '' if v.ok else 'pattern %r, specification %r\ncounterexample: the string %r: %s' % (pat, spec, v.word, v.why)
    ex.obls.append(Obl(name, 'proved' if v.ok else 'refuted', 'automata', time.time() - t, det))
    ex.backend.count['automata'] = ex.backend.count.get('automata', 0) + 1
    return v
