"""C14 on the real expression parser."""
from common import *
import operator
RULE = 'random expression trees (depth up to 3; scalars, variables, data columns, function calls, unary signs, all operators, chains, minimal or extra parentheses) rendered to text, solved by the real parser and compared with an evaluation of the tree; non-trivial: at least one operator'
LV = [['**'], ['u'], ['*', '/', '//', '%'], ['+', '-'], ['>', '<', '>=', '<=', '==', '!='], ['&&', '||', '&', '|']]
OPS = {'**': operator.pow, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod, '+': operator.add, '-': operator.sub, '>': operator.gt, '<': operator.lt, '>=': operator.ge, '<=': operator.le,
       '==': operator.eq, '!=': operator.ne, '&&': lambda a, b: a and b, '||': lambda a, b: a or b, '&': operator.and_, '|': operator.or_}
VARS = dict(x=3.0, y=0.5, n=-2.0, big=7.0, v2=4.0, _k=1.25, N9a=0.1234567890123)
# node: ['num', text] ['var', name] ['col', name] ['call', fn, [args]] ['u', '-', node] ['b', [node, op, node, op, ...]]
def level(n):
    if n[0] in ('num', 'var', 'col', 'call'): return -1
    if n[0] == 'u': return 1
    return [i for i, l in enumerate(LV) if n[1][1] in l][0]
def text(n, extra=False):
    k = n[0]
    if k in ('num', 'var'): return n[1]
    if k == 'col': return 'tab:' + n[1]
    if k == 'call': return '%s(%s)' % (n[1], ', '.join(text(a) for a in n[2]))
    lv = level(n)
    def sub(m, l):
        s = text(m)
        # an operand of a chain binds tighter than the chain; a literal with a sign is a unary node here
        return '(%s)' % s if level(m) >= l and not (l == 1 and level(m) == 1) else s
    if k == 'u': return n[1] + sub(n[2], 1)
    out = sub(n[1][0], lv)
    for i in range(1, len(n[1]), 2): out += ' %s %s' % (n[1][i], sub(n[1][i + 1], lv))
    return out
FN = {'fadd': lambda a, b: a + 10 * b, 'fneg': lambda a: -a, 'fone': lambda: 1.0, 'fsub': lambda a, b: a - b, 'f2x': lambda a: 2 * a}
def ev(n, cols):
    k = n[0]
    if k == 'num': return float(n[1])
    if k == 'var': return VARS[n[1]]
    if k == 'col': return cols[n[1]]
    if k == 'call': return FN[n[1]](*[ev(a, cols) for a in n[2]])
    if k == 'u': return (-1 * ev(n[2], cols)) if n[1] == '-' else ev(n[2], cols)
    r = ev(n[1][0], cols)
    for i in range(1, len(n[1]), 2): r = OPS[n[1][i]](r, ev(n[1][i + 1], cols))
    return r
def hascol(n):
    if n[0] == 'col': return True
    if n[0] in ('num', 'var'): return False
    return any(hascol(m) for m in (n[2] if n[0] == 'call' else [n[2]] if n[0] == 'u' else n[1][::2]))
def corpus():
    N = lambda s: ['num', s]; B = lambda *a: ['b', list(a)]; V = lambda s: ['var', s]
    out = [B(N('2'), '-', N('3'), '-', N('4')), B(N('2'), '**', N('3'), '**', N('2')), ['u', '-', B(N('2'), '**', N('2'))], B(N('8'), '/', N('2'), '*', N('4')), B(N('7'), '//', N('2'), '%', N('2')), B(N('1'), '+', B(N('2'), '*', N('3'))),
           B(B(N('1'), '<', N('2')), '&&', B(N('2'), '>', N('3')), '||', B(N('1'), '==', N('1'))), B(['u', '-', V('x')], '*', ['u', '-', V('n')]), B(['col', 'a'], '-', ['col', 'b'], '-', N('1')), B(B(['col', 'a'], '>', N('2')), '&', B(['col', 'b'], '<=', N('3'))),
           ['call', 'fsub', [V('x'), V('y')]], ['call', 'fone', []], B(['call', 'fsub', [B(N('1'), '-', N('2')), N('3')]], '*', N('2')), B(N('5.25'), '%', N('2')), B(B(N('1'), '-', N('2')), '*', N('3')), ['u', '-', ['u', '-', N('3')]], B(N('2'), '*', ['u', '-', B(N('3'), '**', N('2'))]),
           B(N('1'), '>=', N('1'), '!=', N('0')), B(B(['col', 'a'], '==', N('2')), '|', B(['col', 'b'], '!=', N('3'))), ['u', '+', N('4')], B(N('1.5e2'), '+', N('2.')), B(N('2'), '**', B(N('1'), '+', N('1')))]
    out += [B(N('2'), '||', N('0')), B(N('0'), '||', N('2.5')), B(N('2'), '&&', N('3')), B(N('0'), '&&', N('3')), B(*[N('1')] + ['-', N('2')] * 26), B(*[N('1')] + ['*', N('2'), '/', N('4')] * 13)]
    out += [B(V('v2'), '+', V('N9a')), ['call', 'f2x', [V('_k')]], N('0.12345678901234'), N('1.25e+3'), N('1.25E-12'), N('98765432109876543')]
    return [dict(e=e) for e in out] + [dict(e=B(N('7'), o, N('2'), o, N('3'))) for o in OPS if o not in ('&&', '||', '&', '|')]
def gen(r):
    def atom():
        return r.choice([['num', r.choice(['0', '1', '2', '3', '10', '2.5', '0.125', '1.5e1', '1.0e+2', '1.5E-1', '3.14159265358979', '0.00000000012', '2.E+1', '100000.000000000001'])], ['num', '%d' % r.randint(1, 9)], ['var', r.choice(list(VARS))], ['col', r.choice('ab')] if data else ['num', '4']])
    def node(d):
        if d <= 0: return atom()
        k = r.random()
        if k < .2: return atom()
        if k < .32: return ['u', r.choice('-+-'), node(d - 1)]
        if k < .42:
            f = r.choice(list(FN)); return ['call', f, [node(d - 1) for _ in range({'fadd': 2, 'fneg': 1, 'fone': 0, 'fsub': 2, 'f2x': 1}[f])]]
        lv = r.choice([0, 2, 2, 3, 3, 3]); ops = LV[lv]
        out = [node(d - 1)]
        for _ in range(r.choice([1, 1, 2, 3, 3, 12, 30]) if lv else r.choice([1, 1, 2])): out += [r.choice(ops), node(d - 1) if lv else r.choice([atom(), ['num', r.choice(['0', '1', '2', '3'])]])]
        return ['b', out]
    data = r.random() < .5
    e = node(r.choice([1, 2, 2]))
    k = r.random()
    if k < .35:
        def rel(): return ['b', [node(1), r.choice(LV[4]), node(1)]]
        e = ['b', [rel()]]
        for _ in range(r.choice([1, 2])): e[1] += [r.choice(['&', '|'] if data else LV[5]), rel()]
        if r.random() < .3: e = rel()
    return dict(e=e)
_p = {}
def parser():
    import trappy, pandas as pd, types
    from trappy.stats.grammar import Parser
    if 'd' not in _p:
        _p['d'] = pd.DataFrame({'a': [1., 2., 3., 5.], 'b': [4., 3., 2.5, -1.]}, index=[.1, .2, .5, .75])
        t = trappy.BareTrace(); t.add_parsed_event('tab', _p['d']); _p['t'] = t
    pv = dict(VARS); pv.update(FN)
    return Parser(_p['t'], pvars=pv), _p['d']
def check(c):
    import pandas as pd, numpy as np
    with np.errstate(all='ignore'):
        p, d = parser()
        s = text(c['e'])
        if len(s) > (90 if s.count('(') else 240) or s.count('(') > 5: raise Skip()
        try: want = ev(c['e'], dict(a=d['a'], b=d['b']))
        except (ZeroDivisionError, OverflowError, TypeError, ValueError): raise Skip()
        if isinstance(want, complex) or (isinstance(want, float) and abs(want) > 1e200): raise Skip()
        got = p.solve(s)
    if isinstance(want, pd.Series):
        if isinstance(got, pd.DataFrame):
            if got.shape[1] != 1: return '%r gives %d columns' % (s, got.shape[1])
            got = got.iloc[:, 0]
        if not isinstance(got, pd.Series): return '%r gives %r' % (s, got)
        a, b = [x for x in got], [x for x in want]
        if list(got.index) != list(want.index) or len(a) != len(b) or any(not (x == y or (x != x and y != y)) for x, y in zip(a, b)): return '%r gives %r, expected %r' % (s, a, b)
        return None
    if isinstance(got, (pd.Series, pd.DataFrame)): return '%r gives data, expected %r' % (s, want)
    if not (got == want or (got != got and want != want)) or isinstance(got, (bool, np.bool_)) != isinstance(want, (bool, np.bool_)): return '%r gives %r, expected %r' % (s, got, want)
