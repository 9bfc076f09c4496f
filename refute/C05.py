"""C05 on real FTrace objects."""
from common import *
RULE = 'random traces of 1..8 lines with 0..3 array fields per payload (arrays of 0..6 elements, first appearing on any line, mixed with scalar fields in any position); every cell of every row is compared; non-trivial: at least one array'
def corpus():
    return [dict(lines=l) for l in ([[['a', '1']], [['load', [1, 2, 3]]]], [[['load', [1, 2]], ['a', '1'], ['x', []]]], [[['x', []], ['load', [5]]], [['load', [1, 2, 3, 4]], ['b', 'w']], [['a', '3']]],
            [[['u', [1]], ['load', [1, 2]]], [['load', [3]], ['u', [1, 2, 3]]]], [[['x', []]]], [[['load', ['a', 'b']], ['a', '1']]], [[['a', 'v'], ['load', [7]]], [['a', 'v'], ['load', []]]], [[['a', '1'], ['load', [1, 2]], ['util', [3]], ['b', '2']], [['util', [4, 5]]]])]
def gen(r):
    lines = []
    for _ in range(r.randint(1, 8)):
        fs = [[k, r.choice(['1', '25', '-3', 'w1', '0x10'])] for k in r.sample(['a', 'b', 'cpu'], r.randint(0, 2))]
        if r.random() < .75:
            for k in r.sample(['load', 'util', 'x', 'load2', 'L_1', '9z'], r.randint(1, 3)): fs.append([k, [r.choice([r.randint(0, 9), r.randint(-5, 1000), 'w', '0x1f']) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]])
        r.shuffle(fs)
        lines.append(fs or [['a', '1']])
    return dict(lines=lines)
def check(c):
    L = c['lines']
    txt = []
    for i, fs in enumerate(L):
        txt.append(render(dict(comm='t', pid=1, cpu=0, time='%d.5' % (i + 1), ev='ev_q', data=' '.join('%s=%s' % (k, v if isinstance(v, str) else '{%s}' % ' '.join(str(e) for e in v)) for k, v in fs))))
    p = put('\n'.join(txt) + '\n')
    try: t = ftrace(p, scope='custom', events=['ev_q'], normalize_time=False)
    finally: rm(p)
    mx = {}
    for fs in L:
        for k, v in fs:
            if not isinstance(v, str) and v: mx[k] = max(mx.get(k, 0), len(v))
    want = []
    for i, fs in enumerate(L):
        d = {'__comm': 't', '__pid': 1, '__cpu': 0, '__line': i}
        for k, v in fs:
            if isinstance(v, str): d[k] = intlit(v)
            elif v:
                for j in range(mx[k]): d['%s%d' % (k, j)] = intlit(str(v[j])) if j < len(v) else 0
        want.append((i + 1.5, d))
    m = diffrows(rows(t.ev_q.data_frame), want, 'table')
    if m: return m
    cols = {x for _, d in want for x in d}
    if set(t.ev_q.data_frame.columns) != cols: return 'columns %r, expected %r' % (sorted(t.ev_q.data_frame.columns), sorted(cols))
