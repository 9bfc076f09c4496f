"""Engine self-test: (1) pyvc executes sample functions as CPython does, and refutes the opposite claim; (2) contracts of correct
functions are proved for all inputs and those of broken ones are not; (3) the regular-expression procedure agrees with re."""
import sys, os, re, random, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc.unit import *
from pyvc.unit import run_unit
from pyvc import rx
quick = '--quick' in sys.argv
SRC = '''
def fib(n):
    a, b = 0, 1
    for _ in range(n): a, b = b, a + b
    return a
def words(s):
    out = {}
    for w in s.split(' '):
        if w not in out: out[w] = 0
        out[w] += 1
    return out
def prefix(xs):
    r = []
    t = 0
    for x in xs:
        if x < 0: continue
        if x > 90: break
        t += x
        r.append(t)
    else:
        r.append(-1)
    return r
def tryit(d, k):
    try: return d[k]
    except KeyError: return 'none'
    finally: d['seen'] = k
def alias(n):
    a = [1, 2]; b = a; b.append(n); c = list(a); c.append(0)
    return [a, b, c]
def nested(n):
    return [(i, j) for i in range(n) for j in range(i) if (i + j) % 2]
def gen(n):
    def g():
        i = 0
        while True:
            if i >= n: return
            yield i * i
            i += 1
    return [x for x in g()]
def closure(k):
    fs = [lambda x, k=k: x + k, lambda x: x * k]
    return [f(10) for f in fs]
def slices(s): return [s[1:], s[:-1], s[-2:], s[::2] if False else s, s.strip(), s.upper() if False else s]
def divmod_(a, b): return [a // b, a % b, -a // b, -a % b, a / b]
def star(*a, **k): return [list(a), sorted(k)]
def callstar(xs): return star(*xs, p=1, q=2)
class A(object):
    n = 3
    def __init__(self, v): self.v = v
    def get(self): return self.v + self.n
class B(A):
    def get(self): return super(B, self).get() * 2
def objs(v): return [A(v).get(), B(v).get(), isinstance(B(v), A), hasattr(A(v), 'w'), getattr(A(v), 'w', 7)]
def boolops(a, b): return [a and b, a or b, not a, a if b else 0, a < b <= 5, a in [1, 2], a is None]
def formats(a, s): return ['{}-{}'.format(s, a), '%d' % a + s, s.join(['x', 'y']), str(a)]
def sets(a): return [a | {9}, a & {1, 2}, a - {1}, len(a), 1 in a]
# contracts for all inputs
def clamp(x, lo, hi):
    if x < lo: return lo
    if x > hi: return hi
    return x
def clamp_bad(x, lo, hi):
    if x <= lo: return lo
    if x > hi: return hi - 1
    return x
def count(xs):
    n = 0
    for x in xs: n += 1
    return n
def count_bad(xs):
    n = 0
    for x in xs:
        if n < 1000: n += 1
    return n
'''
CALLS = ['fib(0)', 'fib(4)', "words('a b a')", 'prefix([1, -2, 3])', 'prefix([1, 95, 3])', "tryit({'a': 1}, 'a')", "tryit({'a': 1}, 'b')", 'alias(5)', 'nested(4)', 'closure(4)', "slices(' abc ')",
         'divmod_(7, 2)', 'divmod_(-7, 2)', 'callstar([1, 2])', 'objs(4)', 'boolops(1, 3)', 'boolops(0, 0)', "formats(3, 'q')", 'sets({1, 3})']
ns = {}; exec(SRC, ns)
tests = ''
for i, c in enumerate(CALLS):
    v = eval(c, ns); tests += 'def t_%d():\n    return %s == %r\ndef w_%d():\n    return %s != %r\n' % (i, c, v, i, c, v)
M = 'trappy.selftest'
class Concrete(Unit):
    name = 'concrete'; functions = (); assumes = ()
    def __init__(self, i): self.i = i
    def script(self, ex):
        ex.unroll_for = 10**6
        for k in 'tw': ex.prove(k, tbool(ex.truth_term(ex.call(ex.src(M, '%s_%d' % (k, self.i)), [], {}))) if hasattr(ex, 'truth_term') else ex.mkbool(ex.call(ex.src(M, '%s_%d' % (k, self.i)), [], {})))
class Symbolic(Unit):
    name = 'symbolic'; functions = (); assumes = (); split = 0
    def __init__(self, f): self.f = f
    def script(self, ex):
        f = ex.src(M, self.f)
        if self.f.startswith('clamp'):
            x, lo, hi = (ex.fresh(INT, n) for n in ('x', 'lo', 'hi')); ex.assume(lo.t <= hi.t)
            r = ex.term(ex.call(f, [x, lo, hi], {}), INT)
            ex.prove('c', z3.And(lo.t <= r, r <= hi.t, z3.Implies(z3.And(lo.t <= x.t, x.t <= hi.t), r == x.t)))
        else:
            xs = ex.fresh(ListS(INT), 'xs'); n0 = ex.list_comps(xs, ListS(INT))[0]
            r = ex.call(f, [xs], {})
            ex.prove('c', ex.term(r, INT) == n0)
fail = []
d = tempfile.mkdtemp(prefix='pyvc-self-')
try:
    os.mkdir(d + '/trappy'); open(d + '/trappy/__init__.py', 'w').close(); open(d + '/trappy/selftest.py', 'w').write(SRC + tests)
    for i, c in enumerate(CALLS):
        r = run_unit(Concrete(i), repo=d); o = {x['name']: x['n'] == x['proved'] for x in r['obligations']}
        if r['errors']: fail.append('%s: %s' % (c, r['errors'][0][-400:]))
        elif o.get('t') is not True or o.get('w') is not False: fail.append('%s: %s' % (c, o))
    for f in ('clamp', 'clamp_bad', 'count', 'count_bad'):
        r = run_unit(Symbolic(f), repo=d); o = [x['n'] == x['proved'] for x in r['obligations']]
        if r['errors'] or o != [not f.endswith('_bad')]: fail.append('%s: %s %s' % (f, o, r['errors'][:1]))
finally: shutil.rmtree(d)
F = r"^\s*(?P<comm>.*)-(?P<pid>\d+)(?:\s+\(.*\))?\s+\[(?P<cpu>\d+)\](?:\s+....)?\s+(?P<timestamp>[0-9]+(?P<us>\.[0-9]+)?): (\w+:\s+)+(?P<data>.+)"
pats = [F, r"NR (\d+) \(([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+)\)", r'^(?P<event>[A-Z])(\|(?P<pid>\d+)(\|(?P<func>[^|]*)(\|(?P<data>.*))?)?)?$', r"[A-Za-z0-9_]+=\{\}( |$)", r"(.+)[ _](\d+)", r"[^ ]+={[^}]+}", r"(a|ab)(c|bcd)(d*)", r"a*?(b+?)(b*)", r"(x)?y|z(w)"]
r = random.Random(1); n = 0
toks = list('abcdxyzw -1[]().:|{}=NRA_B\t,0f') + ['-12 ', '[003]', ' (5)', ' 1.5: ', 'ev: ', 'NR 1 (', 'ff, ', '|1|', '={}', 'a={1 2}']
for p in pats:
    for _ in range(1000 if quick else 20000):
        s = ''.join(r.choice(toks) for _ in range(r.randint(0, 12)))
        for how in ('match', 'search', 'fullmatch'):
            m = getattr(re, how)(p, s); g = rx.run(p, how, s)
            w = None if m is None else [m.span(i) if m.group(i) is not None else None for i in range(1, re.compile(p).groups + 1)]
            g = None if g is None else [None if x[0] is None or x[1] is None else x for x in g]
            if g != w: fail.append('regex %r %s on %r: %s, re says %s' % (p, how, s, g, w)); break
            n += m is not None
for x in fail: print('SELFTEST FAILED', x)
print('self test: %d concrete calls, 4 contracts, %d regex matches compared, %d failures' % (len(CALLS), n, len(fail)))
sys.exit(1 if fail else 0)
