"""C19: the plot grid (PlotLayout)."""
from pyvc.unit import *

AXIS = U('Axis')
ax = z3.Function('axis', I, I, AXIS.sort)      # the axes object in row r, column c of the figure
rowof = z3.Function('axis_row', AXIS.sort, I)
colof = z3.Function('axis_col', AXIS.sort, I)
# euclidean division, the specification of "row by row"
qd = z3.Function('qd', I, I, I); rm = z3.Function('rm', I, I, I)

class Axes(Ext):
    """what plt.subplots returns: 2-D, 1-D when one dimension is 1, the bare axes for 1x1"""
    def __init__(self, r, c): self.r, self.c = r, c
    def py_getitem(self, ex, k):
        r, c = self.r, self.c
        if ex.decide(z3.And(r == 1, c == 1)): ex.raise_('TypeError', 'AxesSubplot is not subscriptable')
        if isinstance(k, tuple):
            if ex.decide(z3.Or(r == 1, c == 1)): ex.raise_('IndexError', 'too many indices')
            y, x = ex.term(k[0], INT), ex.term(k[1], INT)
        else:
            i = ex.term(k, INT)
            if ex.decide(r == 1): y, x = z3.IntVal(0), i
            elif ex.decide(c == 1): y, x = i, z3.IntVal(0)
            else: raise Unsupported('row of the axes array')
        if not ex.decide(z3.And(0 <= y, y < r, 0 <= x, x < c)): ex.raise_('IndexError', 'axes index')
        return Sym(ax(y, x), AXIS)

class Figure(Ext):
    def py_getattr(self, ex, name):
        if name == 'suptitle': return Builtin(name, lambda ex, a, k: list(a) and dict(k) and None)      # a title
        if name == 'delaxes': return Builtin(name, self.delaxes)
        raise Unsupported('figure.' + name)
    def delaxes(self, ex, a, k):
        x = a[0]
        if isinstance(x, Axes):
            if not ex.decide(z3.And(x.r == 1, x.c == 1)): raise Unsupported('delaxes of an array')
            x = Sym(ax(z3.IntVal(0), z3.IntVal(0)), AXIS)
        old = ex.ghosts['deleted']
        # matplotlib raises when the axes is not in the figure (any more)
        if ex.decide(z3.Select(old.t, x.t)): ex.raise_('KeyError', 'axes not in figure')
        ex.ghost_set('deleted', Sym(z3.Store(old.t, x.t, z3.BoolVal(True)), DEL))
DEL = Scalar('DELSET', z3.ArraySort(AXIS.sort, B))

def subplots(ex, a, k):
    r, c = ex.term(a[0], INT), ex.term(a[1], INT); k.get('figsize')        # the size of the figure does not matter here
    ex.ghosts['grid'] = (r, c)
    if not ex.decide(z3.And(r >= 1, c >= 1)): ex.raise_('ValueError', 'number of rows and columns must be positive')
    return (Figure(), Axes(r, c))

class Layout(Unit):
    name = 'PlotLayout'
    functions = ('trappy.plotter.PlotLayout.PlotLayout.__init__', 'trappy.plotter.PlotLayout.PlotLayout.get_2d',
                 'trappy.plotter.PlotLayout.PlotLayout.get_axis', 'trappy.plotter.PlotLayout.PlotLayout.finish')
    assumes = ('matplotlib.pyplot.subplots(r, c) returns an r x c array of distinct axes, squeezed to 1-D when r or c is 1 and to the bare axes for 1x1; Figure.delaxes removes one axes',
               'column and plot counts are mathematical integers')
    def setup(self, ex):
        ex.specs['matplotlib.pyplot.subplots'] = subplots
        y, x, l, c = z3.Ints('y x l c')
        ex.axioms.append(z3.ForAll([y, x], z3.And(rowof(ax(y, x)) == y, colof(ax(y, x)) == x), patterns=[ax(y, x)]))
        ex.axioms.append(z3.ForAll([l, c], z3.Implies(z3.And(c > 0, l >= 0), z3.And(l == c * qd(l, c) + rm(l, c), 0 <= rm(l, c), rm(l, c) < c, qd(l, c) >= 0)), patterns=[qd(l, c)]))
        ex.templates.append(self.inv)
    def inv(self, ctx):
        ex = ctx.ex
        if ('gh', 'deleted') not in ctx.labels: return []
        rows, cols, p0 = ex.cur_grid
        l = z3.Int('il'); a = z3.Const('ia', AXIS.sort)
        def f(c):
            d = c.cur(('gh', 'deleted')).t
            lin = rowof(a) * cols + colof(a)
            return z3.ForAll([a], z3.Select(d, a) == z3.And(a == ax(rowof(a), colof(a)), 0 <= colof(a), colof(a) < cols, 0 <= rowof(a), p0 <= lin, lin < p0 + c.k), patterns=[z3.Select(d, a)])
        return [(('must', 'deleted cells'), f)]
    def script(self, ex):
        cls = ex.src('trappy.plotter.PlotLayout', 'PlotLayout')
        cols, n = ex.fresh(INT, 'cols'), ex.fresh(INT, 'num_plots')
        ex.assume(cols.t >= 1); ex.assume(n.t >= 0)
        title = ex.fresh(OptS(STR), 'title')
        try: o = ex.call(cls, [cols, n], {'title': title})
        except PyRaise as e:
            ex.prove('rejected only for zero plots', z3.And(n.t == 0, z3.BoolVal(e.exc.name == 'RuntimeError')))
            return
        ex.prove('zero plots are rejected', n.t != 0)
        C, Rr = ex.term(o.attrs['cols'], INT), ex.term(o.attrs['rows'], INT)
        gr, gc = ex.ghosts['grid']
        ex.prove('columns: as requested, at most the number of plots', z3.And(C == z3.If(cols.t <= n.t, cols.t, n.t), gc == C))
        ex.prove('rows: the smallest number that holds all plots', z3.And(gr == Rr, Rr * C >= n.t, (Rr - 1) * C < n.t, Rr >= 1))
        which = ex.choose('get_axis or finish')
        if which:
            i = ex.fresh(INT, 'i'); ex.assume(z3.And(0 <= i.t, i.t < n.t))
            try: r = ex.call(ex.getattr(o, 'get_axis'), [i], {})
            except PyRaise as e:
                ex.prove('every plot has a cell (no %s)' % e.exc.name, False); return
            if isinstance(r, Axes):
                ex.prove('single plot uses the only cell', z3.And(gr == 1, gc == 1)); return
            ex.prove('plot i sits in row i/cols, column i%cols', r.t == ax(qd(i.t, C), rm(i.t, C)))
            j = ex.fresh(INT, 'j'); ex.assume(z3.And(0 <= j.t, j.t < n.t, i.t != j.t))
            ex.prove('distinct plots get distinct cells (lemma)', ax(qd(i.t, C), rm(i.t, C)) != ax(qd(j.t, C), rm(j.t, C)))
            ex.prove('cells are inside the grid (lemma)', z3.And(0 <= qd(i.t, C), qd(i.t, C) < gr, 0 <= rm(i.t, C), rm(i.t, C) < gc))
        else:
            ex.ghosts['deleted'] = Sym(z3.K(AXIS.sort, z3.BoolVal(False)), DEL)
            p = ex.fresh(INT, 'p'); ex.assume(z3.And(1 <= p.t, p.t <= n.t))
            ex.cur_grid = (gr, gc, p.t)
            try: ex.call(ex.getattr(o, 'finish'), [p], {})
            except PyRaise as e:
                ex.prove('finish removes each spare cell once (no %s)' % e.exc.name, False); return
            d = ex.ghosts['deleted'].t
            y, x = z3.Ints('dy dx')
            ex.assume(z3.And(0 <= y, y < gr, 0 <= x, x < gc))
            ex.prove('finish removes exactly the cells from p on', z3.Select(d, ax(y, x)) == (y * gc + x >= p.t))

UNITS = [Layout()]
