"""Decision procedure for obligations about regular expressions (no bound on the strings).

A specification is a regular expression whose named groups say what is what: every way of reading a string by it is one
tagged word. The code's pattern is run with the matcher's priorities (leftmost, greedy/lazy, alternatives in order) as an
ordered list of threads, each knowing whether the group boundaries it has set agree with the specification's. The product
of the two is finite; all its reachable states are visited. Either every tagged word of the specification satisfies the
claim, or a concrete string that does not is returned."""
import re, sys
import re._parser as P, re._constants as C
from .core import Unsupported

# ------------------------------------------------------------------ character sets (sorted tuples of intervals)
MAXC = 0x10FFFF
def norm(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1] + 1: out[-1][1] = max(out[-1][1], b)
        else: out.append([a, b])
    return tuple((a, b) for a, b in out)
def compl(iv):
    out, p = [], 0
    for a, b in iv:
        if a > p: out.append((p, a - 1))
        p = b + 1
    if p <= MAXC: out.append((p, MAXC))
    return tuple(out)
ALL = ((0, MAXC),); NONL = compl(((10, 10),))
_cat = {}
def category(esc):
    if esc not in _cat:
        r = re.compile(esc); iv = []; s = None
        for c in range(MAXC + 2):
            m = c <= MAXC and r.match(chr(c)) is not None
            if m and s is None: s = c
            elif not m and s is not None: iv.append((s, c - 1)); s = None
        _cat[esc] = tuple(iv)
    return _cat[esc]
CATS = {C.CATEGORY_DIGIT: r'\d', C.CATEGORY_NOT_DIGIT: r'\D', C.CATEGORY_SPACE: r'\s', C.CATEGORY_NOT_SPACE: r'\S', C.CATEGORY_WORD: r'\w', C.CATEGORY_NOT_WORD: r'\W'}
def setof(items):
    neg, iv = False, []
    for op, a in items:
        if op is C.NEGATE: neg = True
        elif op is C.LITERAL: iv.append((a, a))
        elif op is C.RANGE: iv.append(tuple(a))
        elif op is C.CATEGORY: iv += list(category(CATS[a]))
        else: raise Unsupported('character class %s' % op)
    iv = norm(iv)
    return compl(iv) if neg else iv

# ------------------------------------------------------------------ word boundaries
def edge(seq, last):
    """(characters that can be at the edge of a non-empty match, can it be empty)"""
    out, null = (), True
    for op, a in (reversed(list(seq)) if last else seq):
        if op is C.LITERAL: s, n = ((a, a),), False
        elif op is C.NOT_LITERAL: s, n = compl(((a, a),)), False
        elif op is C.ANY: s, n = ALL, False
        elif op is C.IN: s, n = setof(a), False
        elif op is C.SUBPATTERN: s, n = edge(a[3], last)
        elif op is C.BRANCH:
            e = [edge(x, last) for x in a[1]]; s, n = norm([i for x in e for i in x[0]]), any(x[1] for x in e)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            s, n = edge(a[2], last); n = n or a[0] == 0
        elif op is C.AT: s, n = (), True
        else: return ALL, True
        out = norm(list(out) + list(s)); null = null and n
        if not null: break
    return out, null
def inside(a, b): return not any(x <= q and p <= y for x, y in a for p, q in compl(b))
def redundant_boundary(seq, i):
    """\\b at seq[i] always holds: a word character on one side and none on the other"""
    W = category(r'\w'); NW = compl(W)
    n, nn = edge(seq[i + 1:], False)
    if nn: return False
    if all(op is C.AT and a in (C.AT_BEGINNING, C.AT_BEGINNING_STRING) for op, a in seq[:i]) and i: return inside(n, W)
    l, ln = edge(seq[:i], True)
    return not ln and (inside(l, W) and inside(n, NW) or inside(l, NW) and inside(n, W))

# ------------------------------------------------------------------ programs
class Prog:
    def __init__(self, pat, flags=0):
        self.pat = pat; tree = P.parse(pat, flags)
        f = tree.state.flags
        if f & (re.IGNORECASE | re.MULTILINE | re.ASCII | re.LOCALE): raise Unsupported('regular expression flags')
        self.dotall = bool(f & re.DOTALL); self.names = {v: k for k, v in tree.state.groupdict.items()}; self.ngroups = tree.state.groups - 1
        self.code = []; self.hasend = False
        self.emit(tree); self.code.append(('match',))
        self.groupindex = dict(tree.state.groupdict)
    def emit(self, seq, loop=False):
        seq = list(seq)
        for ix, (op, a) in enumerate(seq):
            if op is C.LITERAL: self.code.append(('char', ((a, a),)))
            elif op is C.NOT_LITERAL: self.code.append(('char', compl(((a, a),))))
            elif op is C.ANY: self.code.append(('char', ALL if self.dotall else NONL))
            elif op is C.IN: self.code.append(('char', setof(a)))
            elif op is C.SUBPATTERN:
                g, af, df, p = a
                if af or df: raise Unsupported('inline flags')
                if g is not None: self.code.append(('save', 2 * g, loop))
                self.emit(p, loop)
                if g is not None: self.code.append(('save', 2 * g + 1, loop))
            elif op is C.BRANCH:
                ends = []
                alts = a[1]
                for i, p in enumerate(alts):
                    if i < len(alts) - 1: sp = len(self.code); self.code.append(None)
                    self.emit(p, loop)
                    if i < len(alts) - 1:
                        ends.append(len(self.code)); self.code.append(None)
                        self.code[sp] = ('split', sp + 1, len(self.code))
                for e in ends: self.code[e] = ('jmp', len(self.code))
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                lo, hi, p = a
                greedy = op is C.MAX_REPEAT
                if hi is C.MAXREPEAT and p.getwidth()[0] == 0: raise Unsupported('unbounded repetition of an empty match')
                if lo > 64 or (hi is not C.MAXREPEAT and hi > 64): raise Unsupported('large repetition')
                for _ in range(lo): self.emit(p, loop or hi is C.MAXREPEAT or hi > 1)
                if hi is C.MAXREPEAT:
                    sp = len(self.code); self.code.append(None); self.emit(p, True); self.code.append(('jmp', sp))
                    self.code[sp] = ('split', sp + 1, len(self.code)) if greedy else ('split', len(self.code), sp + 1)
                else:
                    sps = []
                    for _ in range(hi - lo): sps.append(len(self.code)); self.code.append(None); self.emit(p, loop or hi > 1)
                    for sp in sps: self.code[sp] = ('split', sp + 1, len(self.code)) if greedy else ('split', len(self.code), sp + 1)
            elif op is C.AT:
                if a in (C.AT_BEGINNING, C.AT_BEGINNING_STRING): self.code.append(('begin',))
                elif a in (C.AT_END, C.AT_END_STRING): self.code.append(('end', a is C.AT_END)); self.hasend = self.hasend or a is C.AT_END
                elif a is C.AT_BOUNDARY and redundant_boundary(seq, ix): pass
                else: raise Unsupported('assertion %s' % a)
            else: raise Unsupported('regular expression operator %s' % op)
    def sets(self): return [i[1] for i in self.code if i[0] == 'char']

def classes(sets):
    """representatives of the atoms of the given sets: [(representative, index set)]"""
    sets = list(dict.fromkeys(sets))
    pts = sorted({0, 0xD800, 0xE000} | {a for s in sets for a, _ in s} | {b + 1 for s in sets for _, b in s if b < MAXC})
    import bisect
    sig = {}
    starts = [[a for a, _ in s] for s in sets]
    for i, p in enumerate(pts):
        hi = (pts[i + 1] if i + 1 < len(pts) else MAXC + 1) - 1
        if 0xD800 <= p < 0xE000: continue
        k = []
        for n, s in enumerate(sets):
            j = bisect.bisect_right(starts[n], p) - 1
            if j >= 0 and s[j][1] >= p: k.append(n)
        def score(c): return (not (32 <= c < 127), c)
        best = min((score(c), c) for c in ([p] + [c for c in (97, 48, 32, 45, 46, 58, 95) if p <= c <= hi]))
        k = frozenset(k)
        if k not in sig or best < sig[k]: sig[k] = best
    return [(v[1], k) for k, v in sig.items()], sets

def closure(prog, start, tags, pos0, atend, tracked):
    """threads after all empty moves, in priority order; cut at the first match. returns (threads, matched statuses or None)"""
    out, seen = [], set()
    code = prog.code
    for pc0, st0 in start:
        stack = [(pc0, st0)]
        while stack:
            pc, st = stack.pop()
            if pc in seen: continue
            seen.add(pc)
            i = code[pc]; k = i[0]
            if k == 'jmp': stack.append((i[1], st))
            elif k == 'split': stack.append((i[2], st)); stack.append((i[1], st))
            elif k == 'save':
                n = tracked.get(i[1])
                if n is not None: st = st[:n] + ('A' if i[1] in tags else 'D') + st[n + 1:]
                stack.append((pc + 1, st))
            elif k == 'begin':
                if pos0: stack.append((pc + 1, st))
            elif k == 'end':
                if atend: stack.append((pc + 1, st))
            elif k == 'match': return out, st
            else: out.append((pc, st))
    return out, None

class Verdict:
    def __init__(self, ok, word=None, why='', states=0): self.ok, self.word, self.why, self.states = ok, word, why, states
    def __bool__(self): return self.ok

def decide(pat, how, spec, want='groups', groups=None, forbid=None, flags=0, limit=400000):
    """every string read by `spec` (with no group g containing text that forbid[g] matches somewhere) satisfies `want`:
    'groups'  the code's pattern matches and every group of `groups` (code group -> spec group name, None: not set) agrees
    'match' / 'nomatch'  the pattern matches / does not match"""
    pr, sp = Prog(pat, flags), Prog(spec, re.DOTALL)
    fb = {g: Prog(p) for g, p in (forbid or {}).items()}
    for i in sp.code:
        if i[0] == 'save' and i[2]: raise Unsupported('group in a repetition of the specification')
        if i[0] in ('begin', 'end'): raise Unsupported('assertion in the specification')
    groups = dict(groups or {}) if want == 'groups' else {}
    gi = {g: (pr.groupindex[g] if isinstance(g, str) else g) for g in groups} if all(not isinstance(g, str) or g in pr.groupindex for g in groups) else None
    if gi is None: return Verdict(False, None, 'the pattern has no group %s' % [g for g in groups if isinstance(g, str) and g not in pr.groupindex])
    if any(n > pr.ngroups for n in gi.values()): return Verdict(False, None, 'the pattern has only %d groups' % pr.ngroups)
    tracked = {}
    for g in groups:
        if gi[g] == 0: continue
        tracked[2 * gi[g]] = len(tracked); tracked[2 * gi[g] + 1] = len(tracked)
    order = sorted(tracked, key=tracked.get)
    # which code tags correspond to a spec save
    corr = {}
    for g, s in groups.items():
        if s is None or gi[g] == 0: continue
        for e in (0, 1): corr.setdefault(2 * sp.groupindex[s] + e, set()).add(2 * gi[g] + e)
    cls, sets = classes(pr.sets() + sp.sets() + [x for f in fb.values() for x in f.sets()])
    ix = {s: n for n, s in enumerate(sets)}
    U = 'U' * len(tracked)
    fgroups = {sp.groupindex[g]: p for g, p in fb.items()}
    def fstep(p, pend):
        """subset simulation of a search; None when it matches"""
        out, m = closure(p, [(x, '') for x in pend if x >= 0] + [(0, '')], (), pend == (-1,), False, {})
        return out, m
    # spec moves: from pc, all empty paths -> (target pc, tags, opened/closed groups)
    def smoves(pc):
        out = []; stack = [(pc, frozenset(), frozenset())]
        while stack:
            pc, T, S = stack.pop(); i = sp.code[pc]; k = i[0]
            if k == 'jmp': stack.append((i[1], T, S))
            elif k == 'split': stack.append((i[2], T, S)); stack.append((i[1], T, S))
            elif k == 'save': stack.append((pc + 1, T | corr.get(i[1], frozenset()), S | {i[1]}))
            else: out.append((pc, T, S))
        return list(dict.fromkeys(out))
    sm = {}
    init = (0, ((0, U),), None, True, frozenset(), ())      # spec pc, threads, matched, at position 0, spec groups set, forbid runs
    parent = {init: None}; todo = [init]
    def word(st, last=()):
        w = []
        while parent[st] is not None: st, c = parent[st]; w.append(chr(c))
        return ''.join(reversed(w))
    while todo:
        st = todo.pop()
        pc, pend, matched, pos0, sset, fruns = st
        if pc not in sm: sm[pc] = smoves(pc)
        for tgt, T, S in sm[pc]:
            fr = dict(fruns)
            nset = frozenset(sset | {x for x in S})
            bad = False
            for g in fgroups:
                if 2 * g in S: fr[g] = (-1,)
                if 2 * g + 1 in S and g in fr:
                    _, m = closure(fgroups[g], [(x, '') for x in fr[g] if x >= 0] + [(0, '')], (), fr[g] == (-1,), True, {})
                    if m is not None: bad = True
                    del fr[g]
            if bad: continue
            atend = sp.code[tgt][0] == 'match'
            start = list(pend)
            thr, m = closure(pr, start, T, pos0, atend, tracked)
            if how == 'fullmatch' and not atend: 
                # a match counts only at the end: do not cut
                thr, m = closure_nomatch(pr, start, T, pos0, tracked), None
            nm = m if m is not None else matched
            if atend:
                ok, why = verdict(want, nm, order, groups, gi, sp, nset)
                if not ok: return Verdict(False, word(st), why, len(parent))
                continue
            cs = sp.code[tgt][1]; n = ix[cs]
            for c, k in cls:
                if n not in k: continue
                if pr.hasend and c == 10: raise Unsupported('$ on text that may contain a newline')
                nf = {}; dead = False
                for g, pen in fr.items():
                    o, mm = fstep(fgroups[g], pen)
                    if mm is not None: dead = True; break
                    nf[g] = tuple(sorted({x + 1 for x, _ in o if ix[fgroups[g].code[x][1]] in k}))
                if dead: continue
                nt, seen = [], set()
                for p, s in thr:
                    if ix[pr.code[p][1]] in k and p + 1 not in seen: seen.add(p + 1); nt.append((p + 1, s))
                if how == 'search' and nm is None and m is None: nt.append((0, U))
                ns = (tgt + 1, tuple(nt), nm, False, nset, tuple(sorted(nf.items())))
                if ns not in parent:
                    parent[ns] = (st, c); todo.append(ns)
                    if len(parent) > limit: raise Unsupported('regular expression obligation: more than %d states' % limit)
    return Verdict(True, states=len(parent))

def closure_nomatch(prog, start, tags, pos0, tracked):
    out, seen = [], set()
    for pc0, st0 in start:
        stack = [(pc0, st0)]
        while stack:
            pc, st = stack.pop()
            if pc in seen: continue
            seen.add(pc); i = prog.code[pc]; k = i[0]
            if k == 'jmp': stack.append((i[1], st))
            elif k == 'split': stack.append((i[2], st)); stack.append((i[1], st))
            elif k == 'save':
                n = tracked.get(i[1])
                if n is not None: st = st[:n] + ('A' if i[1] in tags else 'D') + st[n + 1:]
                stack.append((pc + 1, st))
            elif k == 'begin':
                if pos0: stack.append((pc + 1, st))
            elif k in ('end', 'match'): pass
            else: out.append((pc, st))
    return out
def verdict(want, m, order, groups, gi, sp, sset):
    if want == 'nomatch': return m is None, 'the pattern matches'
    if m is None: return False, 'the pattern does not match'
    if want == 'match': return True, ''
    for g, s in groups.items():
        if gi[g] == 0: continue
        a, b = m[order.index(2 * gi[g])], m[order.index(2 * gi[g] + 1)]
        there = s is not None and 2 * sp.groupindex[s] in sset
        if there and (a, b) != ('A', 'A'): return False, 'group %s is not the text of %s' % (g, s)
        if not there and (a, b) != ('U', 'U'): return False, 'group %s is set although the text has no %s' % (g, s)
    return True, ''

def run(pat, how, s):
    """the matcher on one string (for the self test): spans of all groups, or None"""
    pr = Prog(pat); n = 2 * pr.ngroups + 2
    def clo(start, pos):
        out, seen = [], set()
        for pc0, st0 in start:
            stack = [(pc0, st0)]
            while stack:
                pc, st = stack.pop()
                if pc in seen: continue
                seen.add(pc); i = pr.code[pc]; k = i[0]
                if k == 'jmp': stack.append((i[1], st))
                elif k == 'split': stack.append((i[2], st)); stack.append((i[1], st))
                elif k == 'save': stack.append((pc + 1, st[:i[1]] + (pos,) + st[i[1] + 1:]))
                elif k == 'begin':
                    if pos == 0: stack.append((pc + 1, st))
                elif k == 'end':
                    if pos == len(s): stack.append((pc + 1, st))
                elif k == 'match':
                    if how == 'fullmatch' and pos != len(s): continue
                    return out, (st, pos)
                else: out.append((pc, st))
        return out, None
    N = (None,) * n; pend = [(0, N)]; best = None
    for pos in range(len(s) + 1):
        thr, m = clo(pend, pos)
        if m: best = m
        if pos == len(s): break
        c = ord(s[pos]); pend = []; seen = set()
        for p, st in thr:
            if any(a <= c <= b for a, b in pr.code[p][1]) and p + 1 not in seen: seen.add(p + 1); pend.append((p + 1, st))
        if how == 'search' and best is None: pend.append((0, N))
    if best is None: return None
    return [tuple(best[0][2 * g:2 * g + 2]) for g in range(1, pr.ngroups + 1)]
