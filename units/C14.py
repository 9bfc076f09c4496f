"""C14: expression operators: meaning, precedence and grouping."""
from pyvc.unit import *
from pyvc.models import *

MOD = 'trappy.stats.grammar'
class Val(ExtU):
    """an operand: every operation on it is a function of the operation and both sides, in order"""
    def py_binop(self, ex, op, o, rev):
        a, b = tok(ex, self), tok(ex, o)
        return V.unpack(ex, [apply_py(lit(op), *((b, a) if rev else (a, b)))])
    def py_cmp(self, ex, op, o, rev): return self.py_binop(ex, op, o, rev)
    def py_eqop(self, ex, op, o):
        if isinstance(o, str) or isinstance(o, Sym) and o.s == STR: return ex.mkbool(self.t == of_str(ex.term(o, STR)) if op == '==' else self.t != of_str(ex.term(o, STR)))
        return self.py_binop(ex, op, o, False)
    def py_unary(self, ex, op): return V.unpack(ex, [apply_un(lit(op), self.t)])
    def py_truth(self, ex): return true(self.t)
    def py_eq(self, ex, o): return self.t == o.t if isinstance(o, Val) else False
V = U('Operand', Val); S_V = V.sort
apply_py = z3.Function('python_operation', S_STR, S_V, S_V, S_V); apply_un = z3.Function('python_unary', S_STR, S_V, S_V); true = z3.Function('is_true', S_V, B)
of_str, of_num = z3.Function('operator_token', S_STR, S_V), z3.Function('number_operand', R, S_V)
def tok(ex, v): return v.t if isinstance(v, Val) else of_num(ex.term(v, REAL))
PLAIN = ('+', '-', '*', '/', '//', '%', '**', '>', '<', '>=', '<=', '==', '!=', '|', '&')
LEVELS = [(('**',), 2, 'left', 'eval_binary_op'), (('+', '-'), 1, 'right', 'eval_unary_op'), (('*', '/', '//', '%'), 2, 'left', 'eval_binary_op'), (('+', '-'), 2, 'left', 'eval_binary_op'),
          (('>', '<', '>=', '<=', '==', '!='), 2, 'left', 'eval_binary_op'), (('&&', '||', '&', '|'), 2, 'left', 'eval_binary_op')]
class Operators(Unit):
    """each symbol denotes its operation, operands in source order"""
    name = 'OPERATOR_MAP'; functions = (MOD + '.OPERATOR_MAP',); budget = 60
    assumes = ('Python\'s operators denote the operations on scalars and, element-wise, on pandas data',)
    def setup(self, ex): grammar(ex)
    def script(self, ex):
        m = ex.src(MOD, 'OPERATOR_MAP'); d = dict(m.cell.items)
        ex.prove('exactly the documented operators', set(d) == set(PLAIN) | {'&&', '||'})
        a, b = ex.fresh(V, 'left'), ex.fresh(V, 'right')
        for op in sorted(d):
            try: r = ex.call(d[op], [a, b], {})
            except PyRaise as e: ex.prove('%s never fails (%s)' % (op, e.exc.name), False); continue
            if not isinstance(r, Val): ex.prove('%s denotes its operation' % op, False); continue
            want = z3.If(true(a.t), b.t, a.t) if op == '&&' else z3.If(true(a.t), a.t, b.t) if op == '||' else apply_py(lit(op), a.t, b.t)
            ex.prove('%s denotes its operation' % op, r.t == want)
class OpMap(Ext):
    """OPERATOR_MAP by its contract: a token that is one of its keys gives its operation"""
    def py_getitem(self, ex, k):
        o = tok(ex, k) if not isinstance(k, str) else of_str(lit(k))
        return Builtin('operation', lambda ex, a, kw: V.unpack(ex, [op2(o, tok(ex, a[0]), tok(ex, a[1]))]))
    def py_contains(self, ex, k): return True
op2 = z3.Function('operation', S_V, S_V, S_V, S_V)
class Chain(Unit):
    """a chain of operators is folded from the left"""
    name = 'eval_binary_op'; functions = (MOD + '.eval_binary_op', MOD + '.iterate_binary_ops'); budget = 90
    assumes = ('pyparsing calls the action of a level with one group: operand, operator, operand, ... (at least one operator)',)
    def setup(self, ex): grammar(ex); ex.templates.append(self.inv)
    def inv(self, ctx):
        out = []; ex = ctx.ex; i = z3.Int('yi')
        # a number k of operators has been consumed: the iterator stands at 2k, the generator has yielded k pairs, the result is fold(k)
        for l in ctx.labels:
            sh = ctx.info.mod[l]
            if l[0] == 'c' and isinstance(sh, ListS) and isinstance(sh.elem, TupleS) and len(sh.elem.sorts()) == 2:
                its = [m for m in ctx.labels if m[0] == 'it']
                def pairs(c, l=l):
                    n, X, Y = c.cur(l).cell.comps
                    return z3.And(n >= 0, n <= self.m, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(X, i) == self.at(2 * i + 1), z3.Select(Y, i) == self.at(2 * i + 2))), patterns=[z3.Select(X, i), z3.Select(Y, i)]))
                out.append((('must', 'the pairs so far', l), pairs))
                for m in its: out.append((('must', 'two tokens per pair', l, m), lambda c, l=l, m=m: ctx.ex.term(c.cur(m), INT) == 2 * c.cur(l).cell.comps[0]))
            if l[0] == 'v' and sh == V and ctx.seq is not None:
                out.append((('must', 'the fold so far', l), lambda c, l=l: z3.And(c.cur(l).t == self.fold(c.k), c.k <= self.m)))
        return out
    def script(self, ex):
        ex.module(MOD).cache['OPERATOR_MAP'] = OpMap()
        self.params = p = ex.fresh(ListS(V), 'tokens'); n, A = p.cell.comps
        self.m = m = ex.fresh(INT, 'operators').t; ex.assume(z3.And(m >= 1, n == 2 * m + 1)); self.at = lambda j: z3.Select(A, j)
        self.fold = f = z3.Function('fold', I, S_V); k = z3.Int('fk')
        ex.assume(f(0) == self.at(0)); ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), f(k + 1) == op2(self.at(2 * k + 1), f(k), self.at(2 * k + 2))), patterns=[f(k)]))
        try: r = ex.call(ex.src(MOD, 'eval_binary_op'), [ex.mklist([p])], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the chain is folded from the left, operands in order', isinstance(r, Val) and r.t == f(m))
class Unary(Unit):
    """a minus sign negates, a plus sign does nothing"""
    name = 'eval_unary_op'; functions = (MOD + '.eval_unary_op',); budget = 30
    assumes = ('multiplying by -1 negates',)
    def setup(self, ex): grammar(ex)
    def script(self, ex):
        op = ex.fresh(STR, 'sign'); minus = ex.choose('minus'); ex.assume(op.t == lit('-' if minus else '+')); x = ex.fresh(V, 'operand')
        z = z3.Const('nx', S_V); neg = z3.Function('negation', S_V, S_V)
        one = of_num(z3.RealVal(-1))
        ex.assume(z3.ForAll([z], z3.And(apply_py(lit('*'), one, z) == neg(z), apply_py(lit('*'), z, one) == neg(z), apply_py(lit('-'), of_num(z3.RealVal(0)), z) == neg(z), apply_un(lit('-'), z) == neg(z), apply_un(lit('+'), z) == z), patterns=[neg(z), apply_py(lit('*'), one, z), apply_py(lit('*'), z, one), apply_un(lit('-'), z)]))
        try: r = ex.call(ex.src(MOD, 'eval_unary_op'), [ex.mklist([ex.mklist(['-' if minus else '+', x])])], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('a minus sign negates the operand' if minus else 'a plus sign keeps the operand', isinstance(r, Val) and r.t == (neg(x.t) if minus else x.t))

class Gr(Ext):
    """a pyparsing grammar as a term"""
    def __init__(self, kind, *args): self.kind, self.args, self.actions, self.dropped = kind, args, [], False
    def py_binop(self, ex, op, o, rev):
        if isinstance(o, str): o = Gr('lit', o)
        if not isinstance(o, Gr): raise Unsupported('grammar %s %r' % (op, o))
        a, b = (o, self) if rev else (self, o)
        if op == '<<': self.args = (o,); return self
        if op not in '+|^': raise Unsupported('grammar operator ' + op)
        return Gr({'+': 'seq', '|': 'first', '^': 'longest'}[op], a, b)
    def py_getattr(self, ex, n):
        if n == 'setParseAction': return Builtin(n, lambda ex, a, k: self.act(ex, list(a)))
        if n == 'addParseAction': return Builtin(n, lambda ex, a, k: self.act(ex, self.actions + list(a)))
        if n == 'suppress': return Builtin(n, lambda ex, a, k: self.drop())
        if n in ('setName', 'setDebug'): return Builtin(n, lambda ex, a, k: self)
        return super().py_getattr(ex, n)
    def act(self, ex, l): self.actions = l; return self
    def drop(self): g = Gr(self.kind, *self.args); g.dropped = True; return g
    def flat(self, kind):
        if self.kind != kind or self.actions or self.dropped: return [self]
        return [y for x in self.args for y in x.flat(kind)]
    def regex(self):
        import re
        k, a = self.kind, self.args
        if k == 'lit': return re.escape(a[0])
        if k == 'oneof': return '(?:%s)' % '|'.join(re.escape(x) for x in a[0])
        if k == 'opt': return '(?:%s)?' % a[0].regex()
        if k == 'word': c = lambda s: '[' + ''.join('\\' + x if x in '\\]^-' else x for x in s) + ']'; return c(a[0]) + c(a[1]) + '*'
        if k == 'seq': return a[0].regex() + a[1].regex()
        if k == 'list' and a[2]: r = a[0].regex(); return '%s(?:%s%s)*' % (r, re.escape(a[1]), r)
        raise Unsupported('grammar %s inside a token' % k)
def grammar(ex):
    import string
    S = ex.specs; P = 'pyparsing.'
    g = lambda x: Gr('lit', x) if isinstance(x, str) else x
    S[P + 'Literal'] = lambda ex, a, k: Gr('lit', a[0])
    S[P + 'Optional'] = lambda ex, a, k: Gr('opt', g(a[0]))
    S[P + 'oneOf'] = lambda ex, a, k: Gr('oneof', tuple(a[0].split()) if isinstance(a[0], str) else tuple(ex.need_items(a[0])))
    S[P + 'Word'] = lambda ex, a, k: Gr('word', a[0], a[1] if len(a) > 1 else a[0])
    S[P + 'Combine'] = lambda ex, a, k: Gr('combine', a[0])
    S[P + 'Group'] = lambda ex, a, k: Gr('group', a[0])
    S[P + 'Forward'] = lambda ex, a, k: Gr('forward')
    S[P + 'delimitedList'] = lambda ex, a, k: Gr('list', g(a[0]), a[1] if len(a) > 1 else k.get('delim', ','), a[2] if len(a) > 2 else k.get('combine', False))
    S[P + 'operatorPrecedence'] = S[P + 'infixNotation'] = lambda ex, a, k: Gr('infix', a[0], a[1])
    for n, v in dict(nums=string.digits, alphas=string.ascii_letters, alphanums=string.ascii_letters + string.digits).items(): ex.lib[P + n] = v
    class Assoc(Ext):
        def py_getattr(self, ex, n): return {'LEFT': 'left', 'RIGHT': 'right'}[n]
    ex.lib[P + 'opAssoc'] = Assoc()
class Grammar(Unit):
    """precedence, grouping and the atoms of an expression"""
    name = 'get_parse_expression'; functions = (MOD + '.get_parse_expression', MOD + '.parse_num'); budget = 60
    assumes = ('pyparsing: a combined sequence of words accepts the concatenation of what they accept, alternatives are tried in order, operatorPrecedence binds its levels from tightest to loosest with the given associativity and calls a level\'s action on its group, parentheses group',)
    def setup(self, ex): grammar(ex)
    def script(self, ex):
        fn, var = Opaque('function action'), Opaque('variable action')
        try: g = ex.call(ex.src(MOD, 'get_parse_expression'), [fn, var], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        top = g
        while isinstance(g, Gr) and g.kind == 'forward' and len(g.args) == 1 and not g.actions: g = g.args[0]
        if not isinstance(g, Gr) or g.kind != 'infix': raise Unsupported('shape of the grammar')
        lv = [[y for y in (x if isinstance(x, tuple) else ex.need_items(x))] for x in ex.need_items(g.args[1])]
        def ops(x): return frozenset([x] if isinstance(x, str) else x.args[0] if x.kind in ('oneof',) else [x.args[0]] if x.kind == 'lit' else [None])
        act = lambda f: f.qual.split('.')[-1] if isinstance(f, VFunc) else None
        got = [(ops(l[0]), l[1], l[2], act(l[3]) if len(l) > 3 else None) for l in lv]
        ex.prove('exponentiation binds tightest, then sign, product, sum, relation, logic', [(x[0], x[1]) for x in got] == [(frozenset(o), n) for o, n, _, _ in LEVELS])
        ex.prove('binary operators group from the left', [x[2] for x in got] == [a for _, _, a, _ in LEVELS])
        ex.prove('every level is evaluated by its operators\' function', [x[3] for x in got] == [f for _, _, _, f in LEVELS])
        alts = g.args[0].flat('first')
        def is_call(x): return x.kind == 'group' and any(y is fn for y in x.actions)
        calls = [x for x in alts if is_call(x)]; rest = [x for x in alts if not is_call(x)]
        ex.prove('function calls are evaluated by the function action', len(calls) == 1 and calls[0].actions == [fn])
        if len(calls) != 1: return
        ats = []
        for x in rest:
            if x.kind == 'first' and x.actions == [var]: y = Gr('first', *x.args); ats += y.flat('first')
            else: ex.prove('every other atom is evaluated by the variable action', x.actions == [var]); ats.append(x)
        group = [x for x in ats if x.kind == 'group']; toks = [x for x in ats if x.kind != 'group']
        num = [x for x in toks if x.kind == 'combine']; ids = [x for x in toks if x.kind == 'word']
        if len(group) != 1 or len(num) != 2 or len(ids) != 1: raise Unsupported('atoms of the grammar')
        pos = lambda x: [i for i, y in enumerate(ats) if y is x][0]
        real = [x for x in num if '.' in x.regex_().replace('\\.', '.').split(')')[-1] or '\\.' in x.regex_()]
        if len(real) != 1: raise Unsupported('numbers of the grammar')
        real = real[0]; integer = [x for x in num if x is not real][0]
        rxprove(ex, 'an integer literal is a sequence of digits with an optional sign', '(%s)' % integer.regex_(), 'fullmatch', r'(?P<s>[+-]?[0-9]+)', groups={1: 's'})
        REAL_ = r'[+-]?[0-9]+\.[0-9]*(?:[eE][+-]?[0-9]+)?'
        rxprove(ex, 'a real literal has digits, a point, optional digits and an optional exponent', '(%s)' % real.regex_(), 'fullmatch', '(?P<s>%s)' % REAL_, groups={1: 's'})
        rxprove(ex, 'a number without a point is no real literal', '(%s)' % real.regex_(), 'fullmatch', r'(?P<s>[^.]*)', want='nomatch')
        rxprove(ex, 'a name is letters, digits and underscores, no digit first', '(%s)' % ids[0].regex(), 'fullmatch', r'(?P<s>[A-Za-z_][A-Za-z0-9_]*)', groups={1: 's'})
        rxprove(ex, 'no name starts with a digit', '(%s)' % ids[0].regex(), 'fullmatch', r'(?P<s>[0-9][^\n]*)', want='nomatch')
        ex.prove('numbers are tried before names, reals before integers, accessors before names, calls first', pos(real) < pos(integer) and pos(group[0]) < pos(ids[0]) and alts.index(calls[0]) == 0)
        for n, x in (('a real', real), ('an integer', integer)):
            ex.prove('%s literal denotes its number' % n, len(x.actions) == 1 and isinstance(x.actions[0], VFunc) and self.number(ex, x.actions[0]))
        inner = calls[0].args[0].flat('seq'); keep = [x for x in inner if not x.dropped]
        paren = [x.args[0] for x in inner if x.dropped]
        if len(keep) != 2 or paren != ['(', ')'] or keep[1].kind != 'opt' or keep[1].args[0].kind != 'group': raise Unsupported('shape of function calls')
        args = keep[1].args[0].args[0]
        ex.prove('the arguments of a call are expressions separated by commas', args.kind == 'list' and args.args[0] is top and args.args[1] == ',' and not args.args[2] and not args.actions)
        rxprove(ex, 'a function name is names joined by points', '(%s)' % keep[0].regex(), 'fullmatch', r'(?P<s>[A-Za-z_][A-Za-z0-9_]*(?:\.[A-Za-z_][A-Za-z0-9_]*)*)', groups={1: 's'})
        acc = group[0].args[0].flat('seq'); ks = [x for x in acc if not x.dropped]
        ex.prove('an accessor is an event, a colon and a column', len(ks) == 2 and [x.args[0] for x in acc if x.dropped] == [':'] and len(acc) == 3)
    def number(self, ex, f):
        s = ex.fresh(STR, 'digits')
        ex.assume(uf(ex, 'str_isfloat', [s], BOOL).t)
        r = ex.call(f, [ex.mklist([s])], {}); w = ex.call(PyType(float), [s], {})
        return ex.eq(r, w)
Gr.regex_ = lambda self: self.args[0].regex()

class Vars(Ext):
    """the parser's variables by name"""
    def py_getitem(self, ex, k):
        if isinstance(k, Toks): ex.raise_('KeyError')
        t = ex.term(k, STR)
        if not ex.decide(isvar(t)): ex.raise_('KeyError')
        return Func(varof(t), V)
    def py_contains(self, ex, k): return ex.mkbool(isvar(ex.term(k, STR)))
isvar, varof = z3.Function('is_variable', S_STR, B), z3.Function('variable', S_STR, S_V)
isfun, byname = z3.Function('is_function', S_V, B), z3.Function('attribute_by_path', S_STR, S_V)
class Func(Val):
    def py_isinstance(self, ex, t): return isfun(self.t)
    def py_call(self, ex, a, k):
        if k: raise Unsupported('keyword arguments')
        l = ex.mklist(list(a)); return self.py_call_star(ex, l)
    def py_call_star(self, ex, l):
        n, A = ex.list_comps(l, ListS(V))
        ex.called.append((self.t, n, A)); return V.unpack(ex, [z3.Function('call_result', S_V, S_V)(self.t)])
class Toks(Ext):
    """the group of an accessor: no number, no variable name"""
    def __init__(self, col): self.col = col
    def py_getitem(self, ex, i): return self.col if i == 1 else Opaque('event')
    def py_float(self, ex): ex.raise_('TypeError')
class Agg(Ext):
    def py_getitem(self, ex, k): return Func(z3.Function('column_data', S_STR, S_V)(ex.term(k, STR)), V)
class VarId(Unit):
    """a literal denotes its number, a variable its value"""
    name = '_parse_var_id'; functions = (MOD + '.Parser._parse_var_id',); budget = 30
    assumes = ('variables are not named like the floats nan, inf or infinity',)
    def setup(self, ex): grammar(ex)
    def script(self, ex):
        ob = PyObj(ex, ex.src(MOD, 'Parser')); ob.attrs.update(_pvars=Vars(), _agg_df=Agg())
        kind = 'number' if ex.choose('number') else 'variable' if ex.choose('variable') else 'accessor'
        col = ex.fresh(STR, 'column')
        if kind == 'number': p = ex.fresh(REAL, 'literal')
        elif kind == 'variable': p = ex.fresh(STR, 'name'); ex.assume(isvar(p.t)); ex.assume(z3.Not(uf(ex, 'str_isfloat', [p], BOOL).t))
        else: p = Toks(col)
        try: r = ex.call(ex.getattr(ob, '_parse_var_id'), [ex.mklist([p])], {})
        except PyRaise as e: ex.prove('a %s never fails (%s)' % (kind, e.exc.name), False); return
        if kind == 'number': ex.prove('a literal denotes its number', ex.eq(r, p))
        elif kind == 'variable': ex.prove('a variable denotes its value', isinstance(r, Val) and r.t == varof(p.t))
        else: ex.prove('an accessor denotes the data of its column', isinstance(r, Val) and r.t == z3.Function('column_data', S_STR, S_V)(col.t))
class Call(Unit):
    """a call denotes the result of the named function for the given arguments, in order"""
    name = '_parse_func'; functions = (MOD + '.Parser._parse_func',); budget = 30
    assumes = ('str_to_attr finds the attribute by its path',)
    def setup(self, ex):
        grammar(ex); ex.specs[MOD + '.str_to_attr'] = lambda ex, a, k: Func(byname(ex.term(a[0], STR)), V)
        ex.lib['types.FunctionType'] = PyType(type(lambda: 0))
    def script(self, ex):
        ob = PyObj(ex, ex.src(MOD, 'Parser')); ob.attrs.update(_pvars=Vars(), _agg_df=Agg()); ex.called = []
        f = ex.fresh(STR, 'function'); some = ex.choose('arguments'); args = ex.fresh(ListS(V), 'arguments')
        try: r = ex.call(ex.getattr(ob, '_parse_func'), [ex.mklist([ex.mklist([f, args] if some else [f])])], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ok = len(ex.called) == 1
        ex.prove('the function is called once', ok)
        if not ok: return
        g, n, A = ex.called[0]; q = ex.fresh(INT, 'q').t
        ex.prove('the named function is called: a function among the variables, or the one at the path', g == z3.If(z3.And(isvar(f.t), isfun(varof(f.t))), varof(f.t), byname(f.t)))
        ex.prove('it gets the arguments in order', z3.And(n == args.cell.comps[0], z3.Implies(z3.And(0 <= q, q < n), z3.Select(A, q) == z3.Select(args.cell.comps[1], q))) if some else n == 0)
        ex.prove('its result is the value', isinstance(r, Val) and r.t == z3.Function('call_result', S_V, S_V)(g))
class Solve(Unit):
    """an expression is evaluated by the grammar with the parser's own actions, after its data was loaded"""
    name = 'solve'; functions = (MOD + '.Parser.solve', MOD + '.Parser.__init__'); budget = 30
    def setup(self, ex):
        grammar(ex); ex.specs['pandas.DataFrame'] = lambda ex, a, k: Opaque('no data')
        ex.specs[MOD + '.get_parse_expression'] = self.build
    def build(self, ex, a, k):
        def bound(f, n): return isinstance(f, VBound) and f.func.qual.endswith('.Parser.' + n) and f.self_val is self.ob
        ex.prove('functions and variables are evaluated by this parser', bound(a[0], '_parse_func') and bound(a[1], '_parse_var_id'))
        return Exp(self)
    def script(self, ex):
        self.ob = ob = PyObj(ex, ex.src(MOD, 'Parser')); self.log = []; self.expr = ex.fresh(STR, 'expression'); pv = Vars() if ex.choose('variables') else None
        try:
            ex.call(ex.getattr(ob, '__init__'), [Opaque('trace')], dict(pvars=pv) if pv else {})
            acc = ob.attrs.get('_accessor')
            for n in [n for n, v in ob.attrs.items() if isinstance(v, Gr)]: ob.attrs[n] = Search(self, ob.attrs[n])
            r = ex.call(ex.getattr(ob, 'solve'), [self.expr], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the variables are those given', ob.attrs.get('_pvars') is pv if pv else isinstance(ob.attrs.get('_pvars'), VDict) and ob.attrs['_pvars'].cell.items == [])
        ex.prove('the data the expression mentions is loaded first', self.log == ['load', 'parse'])
        ex.prove('the value of the expression is returned', r is self.value)
class Search(Ext):
    def __init__(self, u, g): self.u, self.g = u, g
    def py_getattr(self, ex, n):
        if n != 'searchString': return super().py_getattr(ex, n)
        def f(ex, a, k):
            ok = len(self.g.actions) == 1 and isinstance(self.g.actions[0], VBound) and self.g.actions[0].func.qual.endswith('._pre_process')
            ex.prove('all accessors of the expression are loaded', ok and ex.eq(a[0], self.u.expr)); self.u.log.append('load'); return Opaque('matches')
        return Builtin(n, f)
class Exp(Ext):
    def __init__(self, u): self.u = u
    def py_getattr(self, ex, n):
        if n != 'parseString': return super().py_getattr(ex, n)
        def f(ex, a, k):
            ex.prove('the expression itself is evaluated', ex.eq(a[0], self.u.expr)); self.u.log.append('parse'); self.u.value = ex.fresh(V, 'value'); return ex.mklist([self.u.value])
        return Builtin(n, f)
UNITS = [Operators(), Chain(), Unary(), Grammar(), VarId(), Call(), Solve()]
