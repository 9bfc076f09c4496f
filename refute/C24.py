"""C24 on real FTrace objects."""
from common import *
RULE = 'random sys_enter / sys_exit lines (numbers of any size, signed hexadecimal arguments, upper and lower case) and malformed ones; rows are compared with the printed numbers, malformed lines have to raise an error that quotes them; non-trivial: all'
def corpus():
    return [dict(kind='enter', lines=['NR 64 (1, 7764ee9000, 103, 0, 0, 4)', 'NR 0 (ff, FFFFFFFFFFFFFFFF, -1, +2, a, 0)']), dict(kind='exit', lines=['NR 64 = 1', 'NR 3 = -11', 'NR -1 = -38']), dict(kind='enter', lines=['NR 64 (1, 2, 3, 4, 5)']), dict(kind='exit', lines=['NR 64']), dict(kind='enter', lines=['NR x (1, 2, 3, 4, 5, 6)']), dict(kind='exit', lines=['NR 6 = x']),
            dict(kind='enter', lines=['NR 5 (1,2,3,4,5,6)']), dict(kind='enter', lines=['NR 1 (1, 2, 3, 4, 5, 6)', 'NR 2 (1, g, 3, 4, 5, 6)']), dict(kind='exit', lines=['NR 64 = +5', 'NR 12345678901234567 = -9007199254740993', 'NR 1 = -512', 'NR 1 = -516'])]
def gen(r):
    kind = r.choice(['enter', 'exit']); L = []
    for _ in range(r.randint(1, 4)):
        n = r.choice([0, 1, 64, 281, 1024, 99999, 2**31, 10**17 + 3])
        if kind == 'enter':
            a = [r.choice(['', '', '', '-', '+']) + (('%x' if r.random() < .7 else '%X') % r.choice([0, 1, 10, 255, 2**31, 2**32 + 5, 2**62 - 1, 2**63, 2**64 - 1, r.randint(0, 10**6)])) for _ in range(r.choice([6] * 9 + [5]))]
            L.append('NR %d (%s)' % (n, ', '.join(a)))
        else: L.append('NR %s%d = %s%d' % (r.choice(['', '', '-']), n, r.choice(['', '-', '+']), r.choice([0, 1, 11, 4096, 2**40, r.randint(510, 534), 2**53 + 1, 2**63 - 1, r.randint(0, 200)])))
        if r.random() < .1: L[-1] = r.choice([L[-1].replace('NR', 'nr'), L[-1].replace(' (', ' [').replace(' =', ''), 'NR', L[-1].replace('NR ', 'NR'), L[-1][:len(L[-1]) // 3]])
    return dict(kind=kind, lines=L, norm=r.random() < .5)
def want(kind, s):
    """the row's fields; None if the line does not have the form; NotImplemented if it only contains it"""
    import re
    H = r'[-+]?[0-9a-fA-F]+'
    if kind == 'enter':
        m = re.fullmatch(r'NR ([0-9]+) \((%s), (%s), (%s), (%s), (%s), (%s)\)' % ((H,) * 6), s)
        return None if not m else dict([('nr', int(m.group(1)))] + [('arg%d' % i, int(m.group(i + 2), 16)) for i in range(6)])
    m = re.fullmatch(r'NR ([-+]?[0-9]+) = ([-+]?[0-9]+)', s)
    return None if not m else dict(nr=int(m.group(1)), ret=int(m.group(2)))
def check(c):
    ev = 'sys_' + c['kind']
    p = put('\n'.join(render(dict(comm='tr', pid=5, cpu=0, time='%d.5' % (i + 1), ev=ev, data=s)) for i, s in enumerate(c['lines'])) + '\n')
    W = [want(c['kind'], s) for s in c['lines']]
    if any(not s.strip() for s in c['lines']): raise Skip()
    try:
        try: t = ftrace(p, scope='custom', events=[ev], normalize_time=False)
        except Exception as e:
            if all(w is not None for w in W): return 'rejected %r: %s' % (c['lines'], e)
            bad = [s for s, w in zip(c['lines'], W) if w is None]
            return None if any(b.strip() in str(e) for b in bad) else 'the error %r does not quote the line %r' % (str(e), bad)
    finally: rm(p)
    R = rows(getattr(t, ev).data_frame)
    if len(R) != len(W): return '%d rows for %d lines' % (len(R), len(W))
    for (u, d), w, s in zip(R, W, c['lines']):
        if w is None: return 'line %r accepted as %r' % (s, d)
        e = {k: v for k, v in d.items() if not k.startswith('__')}
        if not samerow(e, w) : return 'line %r gives %r, expected %r' % (s, e, w)
