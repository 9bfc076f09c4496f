"""C20 on the real get_trace_event_data, on parsed sched_switch lines."""
from common import *
RULE = 'random sequences of 1..14 task switches on up to three CPUs (consistent, or with dropped switches, also with a changed task name), filters by name and pid as values or lists; the interval lists are compared with the statement; non-trivial: at least one interval'
def corpus():
    S = [[0, 'a', 1, 'b', 2], [0, 'b', 2, 'swapper', 0], [1, 'x', 5, 'a', 1], [0, 'swapper', 0, 'migration/0', 7], [1, 'a', 1, 'b', 2]]
    out = [dict(sw=S, names=n, pids=p) for n in (None, 'a', ['a', 'b'], ['zz']) for p in (None, 1, [2], [1, 2])]
    out += [dict(sw=[[0, 's', 0, 'a', 1], [1, 's', 0, 'a', 1], [0, 'a', 1, 'b', 2]], names=None, pids=None), dict(sw=[[0, 's', 0, 'a', 1], [1, 's', 0, 'z', 1], [0, 'z', 1, 'b', 2]], names=None, pids=None), dict(sw=[[0, 's', 0, 'a', 1], [1, 's', 0, 'z', 1], [0, 'z', 1, 'b', 2]], names=['a'], pids=None),
            dict(sw=[[0, 'a', 1, 'a', 1], [0, 'a', 1, 's', 0]], names=None, pids=None), dict(sw=[[0, 'a', 1, 's', 0]], names=None, pids=None), dict(sw=[[0, 's', 0, 'migrationx', 4], [0, 'migrationx', 4, 'b', 2]], names=None, pids=None), dict(sw=[[0, 's', 0, 'a', 1], [0, 's', 0, 'a', 2], [0, 'a', 1, 'a', 1], [1, 's', 0, 'a', 1]], names=None, pids=None)]
    return out
def gen(r):
    tasks = [['a', 1], ['b', 2], ['a', 3], ['c-1', 4], ['migration/1', 9], ['swapper/0', 0], ['renamed', 1]]
    run = {k: ['swapper/0', 0] for k in range(3)}; sw = []
    for _ in range(r.randint(1, 14)):
        cpu = r.randint(0, 2); nx = r.choice(tasks); pv = run[cpu] if r.random() < .85 else r.choice(tasks)
        if r.random() < .08: run[cpu] = nx; continue
        sw.append([cpu] + pv + nx); run[cpu] = nx
    return dict(sw=sw or [[0, 'a', 1, 'b', 2]], names=r.choice([None, None, 'a', ['a', 'b'], ['renamed', 'c-1']]), pids=r.choice([None, None, 1, [1, 2], [3]]))
def check(c):
    import trappy
    from trappy.plotter.Utils import get_trace_event_data
    L = [render(dict(comm='c', pid=1, cpu=s[0], time='%d.5' % (i + 1), ev='sched_switch', data='prev_comm=%s prev_pid=%d prev_prio=120 prev_state=0x0 ==> next_comm=%s next_pid=%d next_prio=120' % tuple(s[1:]))) for i, s in enumerate(c['sw'])]
    p = put('\n'.join(L) + '\n')
    try: t = ftrace(p, scope='custom', events=['sched_switch'], normalize_time=False)
    finally: rm(p)
    n = len(c['sw']); end = n + .5
    names = None if not c['names'] else c['names'] if isinstance(c['names'], list) else [c['names']]
    pids = None if not c['pids'] else c['pids'] if isinstance(c['pids'], list) else [c['pids']]
    want = {}; dropped = 0
    for i, (cpu, pc, pp, nc, np_) in enumerate(c['sw']):
        if np_ == 0 or nc.startswith('migration') or (names and nc not in names) or (pids and np_ not in pids): continue
        stop, lost = end, False
        for j in range(i + 1, n):
            if c['sw'][j][2] == np_: stop = j + 1.5; break
            if c['sw'][j][4] == np_: lost = True; break
        if lost: dropped += 1; continue
        want.setdefault('%s-%d' % (nc, np_), []).append([i + 1.5, stop, cpu])
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        data, procs, win = get_trace_event_data(t, execnames=c['names'], pids=c['pids'])
    got = {k: [[float(a), float(b), int(d)] for a, b, d in v] for k, v in data.items() if v}
    if got != want: return 'intervals %r, expected %r' % (got, want)
    if any('orrupted' in str(w.message) for w in ws) != bool(dropped): return '%d dropped intervals, %d warnings' % (dropped, len(ws))
    sel = {'%s-%d' % (s[3], s[4]) for s in c['sw'] if s[4] != 0 and not s[3].startswith('migration') and (not names or s[3] in names) and (not pids or s[4] in pids)}
    if set(procs) != sel: return 'procs %r, expected %r' % (set(procs), sel)
    if [float(x) for x in win] != [1.5, end]: return 'window %r' % (win,)
