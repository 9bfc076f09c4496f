from units.opening import *
class CFrame(Ext):
    """a table that may be written out"""
    def __init__(self, u): self.u = u
    def py_getattr(self, ex, n):
        if n == 'to_csv': return Builtin(n, self.out)
        raise Unsupported('attribute %s of a table' % n)
    def out(self, ex, a, k):
        if set(k) - {'path_or_buf', 'index', 'header'} or len(a) > 1: raise Unsupported('options of to_csv')
        ex.prove('the times and the column names are written', z3.BoolVal(k.get('index', True) is True and k.get('header', True) is True))
        f = a[0] if a else k.get('path_or_buf'); self.u.writes.append((self, f)); return None
class CRead(Ext): pass
class Csv(Unit):
    """write_csv writes the whole table to the file; read_csv makes what the file holds the table of the event"""
    name = 'write_csv and read_csv'; budget = 60
    functions = ('trappy.base.Base.write_csv', 'trappy.base.Base.read_csv')
    assumes = ('DataFrame.to_csv without options writes all rows, columns and times; read_csv with the first column as index and float() for the times reads them back (which cell types survive: bounded, refute/C09.py)', 'optimize_dataframe by its contract (C06)')
    def setup(self, ex):
        ex.specs['pandas.read_csv'] = self.read
        ex.specs['trappy.base.Base.optimize_dataframe'] = self.optimize
    def read(self, ex, a, k):
        k = dict(k); f = a[0] if a else k.pop('filepath_or_buffer', None); conv = k.pop('converters', None); idx = k.pop('index_col', None)
        if k or len(a) > 1: raise Unsupported('options of read_csv')
        ex.prove('the times of the file become the index', z3.BoolVal(idx in (0, 'Time') and idx is not False))
        if conv is not None and not (isinstance(conv, VDict) and conv.cell.items is not None): raise Unsupported('converters')
        items = [] if conv is None else conv.cell.items
        if any(not isinstance(v, PyType) for x, v in items): raise Unsupported('converters')
        ex.prove('the times are read with float, as when the trace is parsed', z3.BoolVal(len(items) == 1 and items[0][0] == 'Time' and isinstance(items[0][1], PyType) and items[0][1].t is float))
        if ex.choose('unreadable'): ex.raise_('ValueError', 'unreadable')
        r = CRead(); self.reads.append((r, f)); return r
    def optimize(self, ex, a, k):
        if not isinstance(a[0].attrs.get('data_frame'), (CFrame, CRead)): raise Unsupported('data_frame')
        return None
    def script(self, ex):
        self.writes, self.reads = [], []
        ob = PyObj(ex, ex.src('trappy.base', 'Base')); t = CFrame(self); ob.attrs['data_frame'] = t; f = ex.fresh(STR, 'file')
        if ex.choose('write'):
            try: ex.call(ex.getattr(ob, 'write_csv'), [f], {})
            except PyRaise as e: ex.prove('never fails on its own (%s)' % e.exc.name, False); return
            ex.prove('the whole table is written once, to the file', z3.BoolVal(len(self.writes) == 1 and self.writes[0][0] is t and self.writes[0][1] is f))
            ex.prove('writing leaves the table alone', z3.BoolVal(ob.attrs.get('data_frame') is t))
            return
        try: ex.call(ex.getattr(ob, 'read_csv'), [f], {})
        except PyRaise as e:
            ex.prove('an unreadable file is an error and leaves the table alone', z3.BoolVal(e.exc.name == 'ValueError' and ob.attrs.get('data_frame') is t)); return
        ex.prove('what the file holds is the table', z3.BoolVal(len(self.reads) == 1 and ob.attrs.get('data_frame') is self.reads[0][0] and self.reads[0][1] is f))
UNITS = [DoParse('C09'), LoadCache('C09'), LoadCache('C09', 'SysTrace'), UpdateCache('C09'), UpdateCache('C09', 'SysTrace'), CsvPath(), Finalize(), ParseFile(), Setup(), Csv()]
BOUNDED_ONLY = ['Base.write_csv followed by Base.read_csv (what a CSV file keeps): bounded histories of opens, refute/C09.py']
