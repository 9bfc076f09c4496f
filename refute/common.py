"""Shared by the bounded checks: rendering of traces, opening them, and an independent row-level reading of tables."""
import os, math, io, warnings, itertools
class Skip(Exception): pass
_n = itertools.count()
def put(text, name=None):
    """write a trace file in a fresh directory of the scratch area"""
    d = 't%d' % next(_n); os.mkdir(d)
    p = os.path.join(d, name or 'trace.txt')
    with io.open(p, 'w', encoding='utf-8', newline='') as f: f.write(text)
    return os.path.abspath(p)
def rm(path):
    import shutil
    shutil.rmtree(os.path.dirname(os.path.abspath(path)), ignore_errors=True)
def ftrace(path, cache=False, cls=None, **kw):
    import trappy
    c = cls or trappy.FTrace
    old = c.__dict__.get('disable_cache', None)
    c.disable_cache = not cache
    try: return c(path, **kw)
    finally:
        if old is None: del c.disable_cache
        else: c.disable_cache = old
def render(r):
    """one event line: comm, pid, tgid (or None), cpu, flags (or None), time text, event, payload"""
    if isinstance(r, str): return r
    return '%s%s-%d%s %s[%s]%s %s%s: %s: %s' % (' ' * r.get('ind', 0), r['comm'], r['pid'], '' if r.get('tgid') is None else ' (%s)' % r['tgid'], ' ' * r.get('gap', 0),
            ('%03d' if not r.get('cpuraw') else '%d') % r['cpu'], '' if r.get('flags') is None else ' ' + r['flags'], ' ' * r.get('gap', 0), r['time'], r['ev'], r['data'])
def tval(s): return float(s) if '.' in s else float(s) / 1e9
def times(recs):
    """C02's rule applied to the event lines of a section (None for other lines)"""
    out, cur = [], None
    for r in recs:
        if isinstance(r, str): out.append(None); continue
        t = tval(r['time'])
        cur = t if (cur is None and t > 0) or (cur is not None and t > cur) else math.nextafter(cur or 0.0, math.inf)
        out.append(cur)
    return out
def section(recs):
    i = 0
    while i < len(recs) and isinstance(recs[i], str): i += 1
    return recs[i:]
def isnan(v): return isinstance(v, float) and v != v
def cells(df, i):
    row = df.iloc[i]
    return {c: row[c] for c in df.columns if not isnan(row[c]) and row[c] is not None}
def rows(df):
    """[(time, {column: value})], missing cells left out"""
    cols = list(df.columns); idx = [float(x) for x in df.index]
    vals = [df.iloc[:, k].tolist() for k in range(len(cols))]
    return [(idx[i], {c: vals[k][i] for k, c in enumerate(cols) if not isnan(vals[k][i]) and vals[k][i] is not None}) for i in range(len(idx))]
def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool): return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)): return a == b or (isnan(a) and isnan(b))
    return type(a) == type(b) and a == b
def samerow(a, b): return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
def diffrows(got, want, what):
    if len(got) != len(want): return '%s: %d rows, expected %d' % (what, len(got), len(want))
    for i, ((t, d), (u, e)) in enumerate(zip(got, want)):
        if t != u: return '%s: row %d has time %r, expected %r' % (what, i, t, u)
        if not samerow(d, e): return '%s: row %d is %r, expected %r' % (what, i, d, e)
    return None
def intlit(s):
    try: return int(s, 0)
    except ValueError: return s
def decode(payload):
    """C04's rule"""
    out, key = {}, None
    for w in payload.split():
        if '=' in w:
            key, v = w.split('=', 1); out[key] = intlit(v)
        elif key is None: return None
        elif isinstance(out[key], str): out[key] += ' ' + w
    return out
COMMS = ['swapper', 'bash', 'kworker/u8:0', 'a b', 'x-1', 'Binder:12_3', 'ksoft[0]', 'Chrome (ui)', 'wq', 'trace-cmd', 'python2', '<...>', 'sh -c', 'n0de']
FLAGS = [None, None, 'd..2', '....', 'dNh3', 'd.h.']
def rtime(r, base=None):
    return '%d.%06d' % (r.randint(1, 4000), r.randint(0, 999999))
def ascending(r, n, start=None):
    """n time texts, mostly increasing, sometimes equal or going back"""
    t = start if start is not None else r.randint(1, 5000) * 1000000 + r.randint(0, 999999)
    out = []
    for _ in range(n):
        t += r.choice([0, 1, 1, 7, 1000, 250000, 1500000, -3]); t = max(t, 1)
        out.append('%d.%06d' % divmod(t, 1000000))
    return out
def kvpayload(r, keys='abcd', safe=True):
    ws = []
    for k in r.sample(list(keys), r.randint(1, len(keys))):
        ws.append('%s=%s' % (k, r.choice(['%d' % r.randint(-5, 300), 'w%d' % r.randint(0, 9), 'w x', 'idle']) if not (safe and k in 'ab') else '%d' % r.randint(0, 99)))
    return ' '.join(ws)
def rec(r, ev, time, data, **kw):
    d = dict(comm=r.choice(COMMS), pid=r.choice([0, 1, 7, 345, 12345]), tgid=r.choice([None, None, '%5d' % r.randint(1, 999), '-----']), cpu=r.randint(0, 11), flags=r.choice(FLAGS),
             ind=r.choice([0, 0, 4, 10]), gap=r.choice([0, 0, 1, 2]), time=time, ev=ev, data=data)
    d.update(kw); return d
JUNK = ['# tracer: nop', '', '#', 'CPU:1 [LOST 12 EVENTS]', 'cpus=4', 'ev_a: a=1 b=2', 'task-12 [000] ev_a: a=1', 'task-12 000 1.5: ev_a: a=1', '   ', 'Entries-in-buffer ev_b: 3', 'task [001] 1.5: ev_b: b=1', '[000] 3.000001: ev_a: x=1']
