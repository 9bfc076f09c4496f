"""C23 on real SysTrace objects."""
from common import *
RULE = 'random systrace HTML files (both title variants, both data markers, event-like text before the start marker, between the markers and after the closing script tag, missing final newline) with scheduler and marker events; marker payloads of all shapes; all rows are compared; non-trivial: at least one event line in the trace section'
def corpus():
    E = lambda d, t='1.5': ['m', d, t]
    out = []
    for d in ['B|12|fn', 'E', 'C|5|cnt|42', 'S|1|async|', 'B|12|a b|c|d', 'X', 'B|', 'B|x|y', 'b|1|f', 'hello world', 'B|1|', 'BB|1|f', 'E|7', 'C|-5|x|1', 'trace_event_clock_sync: parent_ts=3.5', 'B 12', 'B|1|f </script> g', 'text </script>.', 'B|1|</script>|x', '<!-- END TRACE -->']:
        out.append(dict(head=0, mark=0, before=['e'], sec=[E(d), ['s', '2.5']], after=['e', 'e'], nl=True, hdr=1))
    for head in (0, 1):
        for mark in (0, 1):
            for b in ([], ['e'], ['e', 't']): out.append(dict(head=head, mark=mark, before=b, sec=[E('B|1|f'), ['j'], ['s', '1.5'], E('E', '1.75')], after=['e'], nl=head == 0, hdr=head))
    return out
def gen(r):
    pay = lambda: r.choice(['B|%d|%s' % (r.randint(0, 9999), r.choice(['fn', 'a b', 'x::y()', ''])), 'E', 'C|%d|%s|%s' % (r.randint(0, 99), r.choice(['cnt', '']), r.choice(['42', '', 'a|b', 'x y'])), r.choice('ABCSFTX') + r.choice(['', '|', '|1', '|1|', '|1|f', '|1|f|', '|z|f|d', ' x', '1|2']), r.choice(['lower', 'e|1|f', '|1|f', '12', 'random text|1|x', 'B|1|f </script> g', 'C|2|</script>|</html>'])])
    t = r.randint(1, 900); sec = []
    for _ in range(r.randint(1, 9)):
        t += r.choice([1, 2, 8]); k = r.random()
        sec.append(['m', pay(), '%.3f' % (t / 8.)] if k < .6 else ['s', '%.3f' % (t / 8.)] if k < .85 else ['j'])
    return dict(head=r.randint(0, 1), mark=r.randint(0, 1), before=[r.choice('et') for _ in range(r.randint(0, 2))], sec=sec, after=[r.choice('et') for _ in range(r.randint(0, 3))], nl=r.random() < .8, hdr=r.randint(0, 2))
def sw(t, i): return '  task-%d [001] d..2 %s: sched_switch: prev_comm=a prev_pid=%d prev_prio=1 prev_state=S ==> next_comm=b next_pid=%d next_prio=2' % (i + 1, t, i, i + 1)
def mk(t, d, i): return '  app-%d  ( 12) [002] ...1 %s: tracing_mark_write: %s' % (i + 1, t, d)
def want_of(d):
    """X, X|pid, X|pid|function or X|pid|function|data; anything else is text"""
    parts = d.split('|', 3)
    if len(parts[0]) != 1 or not 'A' <= parts[0] <= 'Z' or (len(parts) > 1 and not (parts[1] and all(c in '0123456789' for c in parts[1]))): return {'string': d}
    out = {'event': parts[0]}
    if len(parts) > 1: out['pid'] = int(parts[1])
    if len(parts) > 2: out['func'] = parts[2]
    if len(parts) > 3: out['data'] = parts[3]
    return out
def check(c):
    import trappy
    fake = lambda k, i: sw('0.125', i) if k == 'e' else mk('0.25', 'B|99|outside', i)
    L = ['<!DOCTYPE html>', '<html>']
    L += [fake(k, 90 + i) for i, k in enumerate(c['before'])] if c['head'] == 0 else []
    L += ['<title>Android System Trace</title>'] if c['head'] else ['<!-- BEGIN TRACE -->']
    L += [fake(k, 95 + i) for i, k in enumerate(c['before'])]
    L += ['  <script class="trace-data" type="application/text">' if c['mark'] == 0 else '  var linuxPerfData = "\\']
    L += ['# tracer: nop', '#'][:c['hdr']]
    body, n = [], 0
    for i, x in enumerate(c['sec']):
        body.append(mk(x[2], x[1], i) if x[0] == 'm' else sw(x[1], i) if x[0] == 's' else '# comment')
    L += body + ['  </script>', '<!-- END TRACE -->'] + [fake(k, 190 + i) for i, k in enumerate(c['after'])]
    p = put('\n'.join(L) + ('\n' if c['nl'] else ''), 'trace.html')
    try: t = ftrace(p, cls=trappy.SysTrace, scope='custom', events=['sched_switch', 'tracing_mark_write'], normalize_time=False)
    finally: rm(p)
    k0 = next((i for i, x in enumerate(c['sec']) if x[0] != 'j'), None)
    if k0 is None: raise Skip()
    m = [(i, x) for i, x in enumerate(c['sec']) if x[0] == 'm']; s = [(i, x) for i, x in enumerate(c['sec']) if x[0] == 's']
    R = rows(t.sched_switch.data_frame); M = rows(t.tracing_mark_write.data_frame)
    T = times([dict(time=x[2] if x[0] == 'm' else x[1]) if x[0] != 'j' else 'j' for x in c['sec']])
    if [(u, d['__line'], d['next_pid']) for u, d in R] != [(T[i], i - k0, i + 1) for i, x in s]: return 'sched_switch rows %r, expected lines %r' % ([(u, d['__line']) for u, d in R], s)
    if len(M) != len(m): return '%d marker rows, expected %d' % (len(M), len(m))
    for (u, d), (i, x) in zip(M, m):
        if u != T[i] or d['__line'] != i - k0 or d['__pid'] != i + 1 or d['__cpu'] != 2 or d['__comm'] != 'app': return 'marker row %r at %r, expected %r' % (d, u, x)
        e = {k: v for k, v in d.items() if not k.startswith('__')}
        w = want_of(x[1].split(': ', 1)[1] if x[1].startswith('trace_event_clock_sync: ') else x[1])
        if w is not None and not samerow({k: v for k, v in e.items()}, w): return 'marker %r decoded to %r, expected %r' % (x[1], e, w)
        if w is not None and 'string' not in w and 'string' in e: return 'marker %r kept as a string' % x[1]
