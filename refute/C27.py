"""C27 on real FTrace objects."""
from common import *
RULE = 'random lines of every built-in event with a format of its own; rows are compared with the printed fields under the documented column names; non-trivial: all'
def num(r): return r.choice([0, 1, 7, 10, 4096, 2**31, 2**32 - 1, 2**40, r.randint(0, 10**6)])
def word(r): return r.choice(['a', 'clk', 'ab_c', 'x.y', 'needed', 'is', 'is needed', 'a b'.replace(' ', '-'), 'cpu_id', 'z9q'])
def devn(r): return '%d,%d' % (r.randint(0, 300), r.randint(0, 99))
EXT4 = dict(ext4_da_write_begin=['pos', 'len', 'flags'], ext4_da_write_end=['pos', 'len', 'copied'], ext4_sync_file_enter=['parent', 'datasync'], ext4_sync_file_exit=['ret'])
F2 = dict(f2fs_write_begin=['pos', 'len', 'flags'], f2fs_write_end=['pos', 'len', 'copied'], f2fs_sync_file_enter=['pino', 'i_mode', 'i_size'], f2fs_sync_file_exit=['checkpoint', 'datasync', 'ret'])
def one(r, ev):
    """(payload, row)"""
    if ev in EXT4:
        d = devn(r); f = [('dev', d), ('ino', num(r))] + [(x, r.choice([num(r), -num(r) - 1]) if x == 'ret' else num(r)) for x in EXT4[ev]]
        return ' '.join('%s %s' % i for i in f), {'inode' if k == 'ino' else k: v for k, v in f}
    if ev in F2:
        f = [('dev', '(%s)' % devn(r)), ('ino', num(r))] + [(x, num(r)) for x in F2[ev] if x != 'checkpoint']; row = {'inode' if k == 'ino' else k: v for k, v in f}
        s = ['%s = %s' % i for i in f]
        if 'checkpoint' in F2[ev]: c = r.choice(['needed', 'not needed']); s.insert(2, 'checkpoint is ' + c); row['checkpoint'] = c
        return ', '.join(s), row
    if ev in ('clock_enable', 'clock_disable', 'clock_set_rate'):
        c = r.choice(['clk0', 'vclk2', 'a:b', 'state', 'x-y']); st, cpu = num(r), r.randint(0, 7)
        return '%s state=%d cpu_id=%d' % (c, st, cpu), {'clk_name': c, ('rate' if ev == 'clock_set_rate' else 'state'): st, 'cpu_id': cpu}
    if ev in ('cpu_capacity', 'cpu_frequency'):
        st, cpu = num(r), r.randint(0, 7)
        ld = num(r)
        return 'state=%d cpu_id=%d load=%d' % (st, cpu, ld), {('capacity' if ev == 'cpu_capacity' else 'frequency'): st, 'cpu': cpu, 'load': ld}
    if ev == 'cpu_idle':
        st = r.choice([0, 1, 2, 2**32 - 1, 2**32 - 2, 2**32]); cpu = r.randint(0, 7)
        return 'state=%d cpu_id=%d' % (st, cpu), {'state': -1 if st == 2**32 - 1 else st, 'cpu_id': cpu}
    if ev == 'sched_load_avg_sg':
        m = r.choice(['1', 'f', '0', '10', 'ff', '0000000f', 'abcdef01', '3fffffff', '1ffffffff', 'e', 'c', '07'])
        return 'cpus=%s load=%d' % (m, 5), {'cpus': m.rjust(8, '0'), 'load': 5}
    if ev == 'sched_switch':
        w = lambda: r.choice(['a', 'swapper/0', 'kworker', 'b', 'x=>y', 'a>b'])
        a, b = w(), w(); p, q = r.randint(0, 99), r.randint(0, 99); row = dict(prev_comm=a, prev_pid=p, prev_prio=120, prev_state='R', next_comm=b, next_pid=q, next_prio=120)
        arrow = r.random() < .15
        if arrow: row[''] = '=> z'
        return 'prev_comm=%s prev_pid=%d prev_prio=120 prev_state=R ==> next_comm=%s%s next_pid=%d next_prio=120' % (a, p, b, ' ==> z' if arrow else '', q), row
EVS = list(EXT4) + list(F2) + ['clock_enable', 'clock_disable', 'clock_set_rate', 'cpu_capacity', 'cpu_frequency', 'cpu_idle', 'sched_load_avg_sg', 'sched_switch']
def corpus():
    import random
    r = random.Random(5); L = []
    for ev in EVS:
        L.append(dict(ev=ev, lines=[one(r, ev) for _ in range(5)]))
    return L
def gen(r):
    ev = r.choice(EVS); return dict(ev=ev, lines=[one(r, ev) for _ in range(r.randint(1, 5))])
def check(c):
    L = c['lines']; L = [x for x in L if set(x[1]) == set(L[0][1])]; W = [w for _, w in L]
    p = put('\n'.join(render(dict(comm='tr', pid=5, cpu=0, time='%d.5' % (i + 1), ev=c['ev'], data=s)) for i, (s, w) in enumerate(L)) + '\n')
    try:
        try: t = ftrace(p, scope='all', normalize_time=False)
        except Exception as e: return 'rejected %r: %s %s' % (L, type(e).__name__, e)
    finally: rm(p)
    D = [x for x in t.trace_classes if x.unique_word.rstrip(':') == c['ev']]
    if len(D) != 1: return '%d classes for %s' % (len(D), c['ev'])
    R = rows(D[0].data_frame)
    if len(R) != len(W): return '%d rows for %d lines' % (len(R), len(W))
    for (u, d), w, (s, _) in zip(R, W, L):
        e = {k: v for k, v in d.items() if not k.startswith('__')}
        if not samerow(e, w): return 'line %r gives %r, expected %r' % (s, e, w)
