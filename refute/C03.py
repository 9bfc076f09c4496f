"""C03 on real FTrace objects: the prefix of a rendered line."""
from common import *
import re
RULE = 'random rendered lines: task names of spaces, dashes, digits, brackets, parentheses, colons and letters, optional thread-group and flags columns, both time formats, payloads of arbitrary text that is not shaped like (part of) another prefix; non-trivial: all'
LOOK = re.compile(r'\[\d+\]|-\d+\s')
def corpus():
    out = []
    for comm in ['a', '', 'a b', 'x-1', 'a-1 [2]', 'kworker/0:1-ev', '[x]', '(x) y', 'a:b', 'x-1 (2)', 'x-1 (2) [003]', '-', '--', 'a ', '<idle>', 'p-1 [000] 1.5', 'p-1 [000] d..2 1.5:', 'p-1 (9) [000] d..2 1.5: w:', 'é ü', '0']:
        for tg in (None, '   12', '-----', ') ('):
            for fl in (None, 'd..2', '    ', '1.5:'):
                for ts in ('12.345678', '12345678901'): out.append(dict(comm=comm, pid=42, tgid=tg, cpu=3, flags=fl, time=ts, ev='raw_word', data='x (y) z: 5', gap=0))
    return out
def gen(r):
    comm = ''.join(r.choice(['a', 'B', '7', '-', ' ', '[', ']', '(', ')', ':', '1', '.', '/', '_', '=', '#', 'é']) for _ in range(r.randint(0, 10)))
    if r.random() < .3: comm += r.choice(['-12', '-3 [001]', ' (77)', '-1 (2) [003] d..2 4.5: ', '-1 [000] 7: a: '])
    d = ''.join(r.choice(['a', 'foo', '=', '-', ' ', '(', ')', ':', '1', '23', '{', '}', ',', '[x]', '|', '\\', '/', '.', '==>', '+0x12']) for _ in range(r.randint(1, 12)))
    return dict(comm=comm.lstrip(), pid=r.choice([0, 1, 99999, 4194304]), tgid=r.choice([None, None, '    1', '12345', '-----', 'x) (y']), cpu=r.choice([0, 7, 15, 128, 1000]),
                flags=r.choice([None, None, 'd..2', '....', 'D.h3', '    ', '1.2:']), time=r.choice(['1.000001', '123456.789012', '99.5', '1234567890123', '0.5']), ev='raw_word', data=d, gap=r.choice([0, 0, 1, 3]), cpuraw=r.random() < .3)
_reg = []
def raw():
    import trappy
    if not _reg:
        def gdd(self, s): return {'string': s}
        _reg.append(type(str('RawWord'), (trappy.base.Base,), dict(unique_word='raw_word:', name='raw_word', generate_data_dict=gdd)))
        trappy.register_ftrace_parser(_reg[0])
def check(c):
    raw()
    d = c['data']
    if not d.strip() or d != d.strip() or re.match(r'\w+:\s', d) or LOOK.search(d) or '={' in d: raise Skip()
    if c['comm'][:1].isspace(): raise Skip()
    # the payload of the line may also combine with the time column ("1.5: w:") only if it has a bracketed number, excluded above
    line = render(c); p = put(line + '\n')
    try: t = ftrace(p, scope='custom', events=['raw_word'], normalize_time=False)
    finally: rm(p)
    r = rows(t.raw_word.data_frame)
    if len(r) != 1: return '%d rows for %r' % (len(r), line)
    u, e = r[0]
    got = (e.get('__comm'), e.get('__pid'), e.get('__cpu'), u, e.get('string'))
    want = (c['comm'], c['pid'], c['cpu'], tval(c['time']), d)
    if got != want: return 'line %r decoded to %r, expected %r' % (line, got, want)
