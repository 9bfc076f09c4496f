"""C27: events with a format of their own are decoded to the documented columns."""
from pyvc.unit import *
from pyvc.models import *
from units.C04 import cast
FS = 'trappy.filesystem.'
CAST = 'Base.string_cast_int by its contract (C04)'
def string_cast(ex, a, k):
    s = ex.force(a[-1])
    if not is_strv(s): raise Unsupported('string_cast_int')
    return ex.unpack_pv(cast(ex, s)) if hasattr(ex, 'unpack_pv') else Sym(cast(ex, s), PV)
def known(ex, cls): return PyObj(ex, ex.src(*cls.rsplit('.', 1)))

# ---- payloads of the form "clk_name field=value ..."
class Clk(Unit):
    budget = 40; assumes = ('Base.generate_data_dict by its contract (C04)',)
    def __init__(self, cls): self.cls = 'trappy.common_clk.' + cls; self.name = cls + '.generate_data_dict'; self.functions = (self.cls + '.generate_data_dict', 'trappy.common_clk.CommonClkBase.generate_data_dict')
    def setup(self, ex): ex.specs['trappy.base.Base.generate_data_dict'] = self.decode
    def decode(self, ex, a, k):
        self.calls.append((a[0], ex.force(a[1]))); self.d = ex.fresh(DictS(STR, PV), 'decoded'); self.comps = list(self.d.cell.comps); return self.d
    def script(self, ex):
        self.calls = []; ob = known(ex, self.cls); data = ex.fresh(STR, 'payload'); x = ex.fresh(STR, 'field').t
        ex.assume(ex.contains(data, ' '))
        try: r = ex.call(ex.getattr(ob, 'generate_data_dict'), [data], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        ex.prove('the fields are decoded once', len(self.calls) == 1)
        ex.prove('the fields are what follows the clock name', self.calls[0][0] is ob and is_strv(self.calls[0][1]) and ex.term(self.calls[0][1], STR) == uf(ex, 'str_after', [data, ' '], STR).t)
        if not isinstance(r, VDict): raise Unsupported('decoded payload')
        if r.cell.items is not None: raise Unsupported('decoded payload')
        D, V = r.cell.comps; D0, V0 = self.comps
        ex.prove('clk_name is the first word', z3.And(z3.Select(D, ex.term('clk_name', STR)), z3.Select(V, ex.term('clk_name', STR)) == S_PV.pstr(uf(ex, 'str_before', [data, ' '], STR).t)))
        ex.prove('every other field is kept', z3.Implies(x != ex.term('clk_name', STR), z3.And(z3.Select(D, x) == z3.Select(D0, x), z3.Implies(z3.Select(D0, x), z3.Select(V, x) == z3.Select(V0, x)))))

# ---- payloads of the form "name value name value ..."
class Ext4(Unit):
    budget = 60; assumes = ("str.split: the words of a payload whose words are separated by single blanks", CAST)
    def __init__(self, cls): self.cls = FS + cls; self.name = cls + '.generate_data_dict'; self.functions = (self.cls + '.generate_data_dict', FS + 'FilesystemExt4Base.generate_data_dict')
    def setup(self, ex):
        ex.specs['trappy.base.Base.string_cast_int'] = string_cast
        ex.templates.append(map_loop(ListS(TupleS(STR, PV)), lambda j: ex.pack((Sym(z3.Select(self.A, 2 * j), STR), Sym(cast(ex, Sym(z3.Select(self.A, 2 * j + 1), STR)), PV)), TupleS(STR, PV))))
    def script(self, ex):
        ob = known(ex, self.cls); data = ex.fresh(STR, 'payload')
        n, A = uf(ex, 'str_split', [data, ' '], ListS(STR)).cell.comps; n2, A2 = uf(ex, 'str_split', [data], ListS(STR)).cell.comps
        self.A = A; ex.assume(z3.And(n == n2, A == A2, n >= 1)); p = ex.fresh(INT, 'pairs').t; ex.assume(z3.And(n == 2 * p, p >= 1))
        q = ex.fresh(INT, 'q').t; ex.assume(z3.And(0 <= q, q < p))
        try: r = ex.call(ex.getattr(ob, 'generate_data_dict'), [data], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        if isinstance(r, VDict) or not isinstance(r, (VList, Ext)): raise Unsupported('decoded payload')
        l = ex.seq_to_list(ex.seqof(r)) if not isinstance(r, VList) else r
        ln = ex.term(ex.len_(l), INT) if hasattr(ex, 'len_') else l.cell.comps[0]
        ex.prove('one field for each pair of words', ln == p)
        it = ex.getitem(l, Sym(q, INT))
        if not isinstance(it, tuple) or len(it) != 2: raise Unsupported('field')
        ex.prove('the name is the first word of the pair', ex.term(it[0], STR) == z3.Select(A, 2 * q))
        ex.prove('the value is the second word of the pair', pv_eq(ex.term(it[1], PV), cast(ex, Sym(z3.Select(A, 2 * q + 1), STR))))

# ---- payloads of the form "name = value, name = value"
class Text(Ext):
    """name<a>value<b>name<a>value ...; if ck is not None one field reads checkpoint<ck>value"""
    def __init__(self, a, b, ck, spoiled=None): self.a, self.b, self.ck, self.spoiled = a, b, ck, spoiled
    def py_getattr(self, ex, n):
        if n == 'replace': return Builtin(n, self.replace)
        if n == 'strip': return Builtin(n, lambda ex, a, k: self)
        raise Unsupported('attribute %s of a payload' % n)
    def replace(self, ex, a, k):
        if k or len(a) != 2 or not all(isinstance(x, str) for x in a): raise Unsupported('replace')
        x, y = a; A, b, ck, sp = self.a, self.b, self.ck, self.spoiled
        if x == self.a: A = y; ck = y if ck == x else ck
        elif x == self.b: b = y
        elif ck is not None and x == 'checkpoint' + ck and y.startswith('checkpoint'): ck = y[10:]
        elif x and x.strip() == self.b.strip() and len(x) < len(self.b): b = b.replace(x, y); sp = 'a value that holds %r is changed' % x
        elif x and x.strip() == self.a.strip() and len(x) < len(self.a): raise Unsupported('replace')
        else: raise Unsupported('replace(%r)' % x)
        return Text(A, b, ck, sp)
class F2fs(Unit):
    budget = 30; assumes = ("str.replace on text joined from parts that do not contain what is replaced, except for the separators", 'Base.generate_data_dict by its contract (C04)')
    def __init__(self, cls): self.cls = FS + cls; self.name = cls + '.generate_data_dict'; self.functions = tuple({self.cls + '.generate_data_dict', FS + 'FilesystemF2FSBase.generate_data_dict'})
    def setup(self, ex): ex.specs['trappy.base.Base.generate_data_dict'] = self.decode
    def decode(self, ex, a, k):
        self.calls.append((a[0], a[1])); self.d = ex.fresh(DictS(STR, PV), 'decoded'); self.comps = list(self.d.cell.comps); return self.d
    def script(self, ex):
        self.calls = []; ob = known(ex, self.cls); t = Text(' = ', ', ', ' is ' if self.cls.endswith('SyncFileExit') else None)
        try: r = ex.call(ex.getattr(ob, 'generate_data_dict'), [t], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        if len(self.calls) != 1 or not isinstance(self.calls[0][1], Text): raise Unsupported('decoded text')
        t = self.calls[0][1]
        ex.prove('every name is joined to its value by =', z3.BoolVal(t.a == '='))
        ex.prove('the fields are separate words', z3.BoolVal(t.b != '' and t.b.strip() == ''))
        ex.prove('a comma inside a value stays', z3.BoolVal(t.spoiled is None))
        if t.ck is not None: ex.prove('the checkpoint field has a value', z3.BoolVal(t.ck == '='))
        ex.prove('the result is the decoded text, unchanged', z3.BoolVal(r is self.d and all(z3.eq(x, y) for x, y in zip(self.comps, r.cell.comps))))

# ---- sched_switch
class Switch(Unit):
    name = 'SchedSwitch.create_dataframe'; budget = 60; functions = ('trappy.sched.SchedSwitch.create_dataframe',)
    assumes = ('str.replace(x, y, 1) replaces the first x', 'Base.create_dataframe by its contract (C05, C06)')
    def setup(self, ex):
        ex.specs['trappy.base.Base.create_dataframe'] = self.create
        ex.templates.append(map_loop(ListS(STR), lambda j: [uf(ex, 'str_replace', [Sym(z3.Select(self.A, j), STR), ' ==> ', ' ', 1], STR).t]))
    def create(self, ex, a, k):
        self.called += 1; d = self.ob.attrs['data_array']
        if not isinstance(d, VList): raise Unsupported('data_array')
        n, A = d.cell.comps if d.cell.items is None else ex.pack(d, ListS(STR))
        q = ex.fresh(INT, 'q').t; ex.assume(z3.And(0 <= q, q < n)); s = Sym(z3.Select(self.A, q), STR); AR = ' ==> '
        one = mkcat([uf(ex, 'str_before', [s, AR], STR), ' ', uf(ex, 'str_after', [s, AR], STR)])
        want = z3.If(tbool(ex.contains(s, AR)), ex.term(one, STR), s.t)
        ex.assume(uf(ex, 'str_replace', [s, AR, ' ', 1], STR).t == want)
        ex.prove('one payload per line', n == self.n)
        ex.prove('the first arrow of the line, and nothing else, is taken out', z3.Select(A, q) == want)
    def script(self, ex):
        self.ob = ob = known(ex, 'trappy.sched.SchedSwitch'); self.called = 0
        l = ex.fresh(ListS(STR), 'data_array'); self.n, self.A = l.cell.comps; ob.attrs['data_array'] = l
        try: ex.call(ex.getattr(ob, 'create_dataframe'), [], {})
        except PyRaise as e: ex.prove('does not fail on its own (%s)' % e.exc.name, False); return
        ex.prove('the table is built once', self.called == 1)

# ---- tables that are changed once built
class Tab(Ext):
    """a table as a function of the decoded one: what each column is called now (names) and what an integer cell became (cells); pads: columns shown in eight digits"""
    def __init__(self, names=(), subs=(), cols=None): self.names, self.subs, self.cols, self.pads = list(names), list(subs), cols or {}, {}
    def copy(self):
        t = Tab(self.names, self.subs, self.cols); t.pads = dict(self.pads); return t
    def name(self, c):
        for m in self.names: c = m.get(c, c)
        return c
    def cell(self, x):
        for a, b in self.subs: x = z3.If(x == a, z3.IntVal(b), x)
        return x
    def py_getattr(self, ex, n):
        if n == 'rename': return Builtin(n, self.rename)
        if n == 'replace': return Builtin(n, self.replace)
        if n == 'columns': return Cols(self)
        raise Unsupported('attribute %s of a table' % n)
    def change(self, f, inplace):
        if inplace not in (True, False): raise Unsupported('inplace')
        t = self if inplace else self.copy(); f(t); return None if inplace else t
    def rename(self, ex, a, k):
        k = dict(k); inplace = k.pop('inplace', False); m = k.pop('columns', None)
        if a or k or not isinstance(m, VDict) or m.cell.items is None or not all(isinstance(x, str) for i in m.cell.items for x in i): raise Unsupported('rename')
        m = dict((x, y) for x, y in m.cell.items)
        return self.change(lambda t: t.names.append(m), inplace)
    def replace(self, ex, a, k):
        k = dict(k); inplace = k.pop('inplace', False)
        if len(a) == 1 and not k and isinstance(a[0], VDict) and a[0].cell.items is not None: ps = [(x, y) for x, y in a[0].cell.items]
        elif len(a) == 2 and not k: ps = [(a[0], a[1])]
        else: raise Unsupported('replace')
        if not all(isinstance(x, int) and not isinstance(x, bool) for p in ps for x in p) or len(ps) != 1: raise Unsupported('replace')
        return self.change(lambda t: t.subs.extend(ps), inplace)
    def py_getitem(self, ex, k):
        if not isinstance(k, str): raise Unsupported('column')
        if not ex.decide(self.has(k)): ex.raise_('KeyError', k)
        return self.pads.get(k) or Column(k)
    def py_setitem(self, ex, k, v):
        if not isinstance(k, str) or not isinstance(v, Column): raise Unsupported('column')
        ex.prove('no other column is added', self.has(k)); self.pads[k] = v
    def has(self, c): return z3.Bool('has column ' + c)
class Cols(Ext):
    def __init__(self, t): self.t = t
    def py_contains(self, ex, x):
        if not isinstance(x, str): raise Unsupported('column name')
        return self.t.has(x)
class Column(Ext):
    def __init__(self, c, f=lambda ex, x: x): self.c, self.f = c, f
    def py_getattr(self, ex, n):
        if n in ('apply', 'map'):
            def ap(ex, a, k):
                if k or len(a) != 1: raise Unsupported(n)
                g, f = a[0], self.f; return Column(self.c, lambda ex, x: ex.call(g, [f(ex, x)], {}))
            return Builtin(n, ap)
        if n == 'astype': return Builtin(n, lambda ex, a, k: Column(self.c, lambda ex, x, f=self.f: ex.call(ex.builtin('str'), [f(ex, x)], {})) if len(a) == 1 and isinstance(a[0], PyType) and a[0].t is str and not k else Unsupported_('astype'))
        if n == 'str': return StrAcc(self)
        raise Unsupported('attribute %s of a column' % n)
class StrAcc(Ext):
    def __init__(self, c): self.c = c
    def py_getattr(self, ex, n):
        f = self.c.f
        return Builtin(n, lambda ex, a, k: Column(self.c.c, lambda ex, x: ex.call(ex.getattr(f(ex, x), n), a, k)))
def Unsupported_(x): raise Unsupported(x)
class Finalize(Unit):
    budget = 30; assumes = ('DataFrame.rename(columns=...) changes the names given and nothing else; DataFrame.replace(a, b) changes the cells equal to a; Column.apply(f) applies f to every cell',)
    def __init__(self, cls, names, subs=None, pad=None):
        self.cls, self.names, self.subs, self.pad = cls, names, subs, pad; self.name = cls.split('.')[-1] + '.finalize_object'; self.functions = (cls + '.finalize_object',)
    def script(self, ex):
        ob = known(ex, self.cls); t = Tab(); ob.attrs['data_frame'] = t; x = ex.fresh(INT, 'cell').t
        try: ex.call(ex.getattr(ob, 'finalize_object'), [], {})
        except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
        t = ob.attrs['data_frame']
        if not isinstance(t, Tab): raise Unsupported('data_frame')
        olds = set(self.names) | {x for m in t.names for x in m} | {'another'}
        for c in sorted(olds): ex.prove('column %s is called %s' % (c, self.names.get(c, c)), z3.BoolVal(t.name(c) == self.names.get(c, c)))
        ex.prove('the cells are as stated', t.cell(x) == (z3.If(x == self.subs[0], z3.IntVal(self.subs[1]), x) if self.subs else x))
        ex.prove('only the stated column is shown in a fixed width', z3.BoolVal(set(t.pads) <= {self.pad}))
        if self.pad:
            s = ex.fresh(STR, 'mask'); want = uf(ex, 'fmt:0>8', [s], STR).t
            for o in ('str_rjust',): ex.assume(uf(ex, o, [s, 8, '0'], STR).t == want)
            c = t.pads.get(self.pad)
            if c is None: ex.prove('the masks are padded when there are any', z3.Not(t.has(self.pad)))
            else:
                ex.prove('a mask is its own', z3.BoolVal(c.c == self.pad))
                ex.prove('a mask is shown with leading zeros in eight digits', ex.term(c.f(ex, s), STR) == want)
class Raw(Unit):
    """events whose payload is decoded from the unformatted fields"""
    name = 'parse_raw'; budget = 20
    CL = ('trappy.sched.SchedSwitch', 'trappy.function.FunctionTracer', 'trappy.function_graph.FuncgraphEntry', 'trappy.function_graph.FuncgraphExit')
    functions = tuple(c + '.__init__' for c in CL)
    def setup(self, ex): ex.specs['trappy.base.Base.__init__'] = self.init
    def init(self, ex, a, k): self.got.append((a, k)); return None
    def script(self, ex):
        for c in self.CL:
            self.got = []; ob = known(ex, c)
            try: ex.call(ex.getattr(ob, '__init__'), [], {})
            except PyRaise as e: ex.prove('never fails (%s)' % e.exc.name, False); return
            ok = len(self.got) == 1
            a, k = self.got[0] if ok else ([], {})
            v = k.get('parse_raw', a[1] if len(a) > 1 else False)
            ex.prove('%s is read unformatted' % c.split('.')[-1], z3.BoolVal(ok and v is True and not k.get('fallback', False) and len(a) < 3))
INO = {'ino': 'inode'}
E4 = ('DaWriteBegin', 'DaWriteEnd', 'SyncFileEnter', 'SyncFileExit'); FF = ('WriteBegin', 'WriteEnd', 'SyncFileEnter', 'SyncFileExit')
UNITS = [Clk('CommonClk' + x) for x in ('Enable', 'Disable', 'SetRate')] + [Ext4('FilesystemExt4' + x) for x in E4] + [F2fs('FilesystemF2FS' + x) for x in FF] + [Switch()] + \
    [Finalize('trappy.sched.SchedCpuCapacity', {'cpu_id': 'cpu', 'state': 'capacity'}), Finalize('trappy.sched.SchedCpuFrequency', {'cpu_id': 'cpu', 'state': 'frequency'}), Finalize('trappy.common_clk.CommonClkSetRate', {'state': 'rate'}),
     Finalize('trappy.idle.CpuIdle', {}, subs=(2 ** 32 - 1, -1)), Finalize('trappy.sched.SchedLoadAvgSchedGroup', {}, pad='cpus')] + \
    [Finalize(FS + 'FilesystemExt4' + x, INO) for x in E4] + [Finalize(FS + 'FilesystemF2FS' + x, INO) for x in FF] + [Raw()]
