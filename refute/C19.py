"""C19 on the real PlotLayout (matplotlib, Agg)."""
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
RULE = 'random (columns 1..9, plots 0..40, finish index); compares the axes used and deleted with the row-by-row grid of the statement; non-trivial: at least one plot'
def corpus():
    return [dict(cols=c, n=n, p=p) for c in range(1, 5) for n in range(0, 9) for p in sorted({1, n // 2, n - 1, n}) if 1 <= p <= max(n, 1)]
def gen(r):
    c, n = r.choice([1, 2, 3, 4, 5, 7, 9]), r.randint(1, 24)
    return dict(cols=c, n=n, p=r.randint(1, n))
def check(case):
    from trappy.plotter.PlotLayout import PlotLayout
    cols, n, p = case['cols'], case['n'], case['p']
    plt.close('all')
    try: l = PlotLayout(cols, n, title=None, width=1, length=1)
    except RuntimeError:
        return None if n == 0 else 'RuntimeError for %d plots' % n
    if n == 0: return 'zero plots accepted'
    C = min(cols, n); R = -(-n // C)
    if (l.cols, l.rows) != (C, R): return 'grid %sx%s, expected %sx%s' % (l.rows, l.cols, R, C)
    fig = l.get_fig(); axs = list(fig.axes)
    if len(axs) != R * C: return '%d axes' % len(axs)
    for i in range(n):
        if l.get_axis(i) is not axs[i]: return 'plot %d is not in cell %d (row by row)' % (i, i)
    l.finish(p)
    left = list(fig.axes)
    if left != axs[:p]: return 'finish(%d) left cells %r' % (p, [axs.index(a) for a in left])
    return None
