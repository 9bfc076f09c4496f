"""C04 on the real Base.generate_data_dict and through FTrace."""
from common import *
RULE = 'random payloads of 0..9 words over keys and values that contain "=", signs, hexadecimal/octal/binary/underscored/invalid integer literals, repeated keys, words without "=" and the trace-cmd failure marker; non-trivial: at least one word'
VALS = ['5', '-5', '+7', '0x1f', '0X1F', '0b11', '0o17', '007', '1_000', '1__0', '0', '00', '', 'abc', 'x=y', '=', '==>', '1.5', '12a', '0x', '-0x10', '--5', '{', '{1', 'None', 'True', '1e5', '99999999999999999999', '٣', 'FAILED', '-']
def corpus():
    return [dict(ws=w) for w in (['a=1', 'b', 'c=x', 'd', 'e'], ['a=x', 'y', 'b=2', 'z', 'a=q', 'r'], ['x', 'a=1'], [], ['a'], ['[FAILED', 'TO', 'PARSE]', 'a=1', 'q', 'b=x', 'y'], ['a=1=2=3'], ['a=', 'b'], ['=v', 'w'], ['a=0x10', 'b=010', 'a=5'], ['a=5', 'b=x', 'FAILED', 'TO', 'PARSE'])]
def gen(r):
    ws = []
    if r.random() < .15: ws += ['[FAILED', 'TO', 'PARSE]'] + (['junk'] if r.random() < .3 else [])
    if r.random() < .05: ws.append('lead')
    for _ in range(r.randint(0, 9)):
        ws.append(r.choice(['%s=%s' % (r.choice(['a', 'b', 'key', 'prev_comm', 'a-b', 'x.y', '__pid', '7', '']), r.choice(VALS)), '%s=%s' % (r.choice('abcd'), r.randint(-99, 9999)), r.choice(['word', '12', '-', '==', '{}', 'FAILED', '==>'] if r.random() < .2 else ['word', '12', 'x1'])]))
    return dict(ws=ws, sep=r.choice([' ', ' ', '  ']), via=r.random() < .15)
def check(c):
    import trappy
    from trappy.base import Base
    ws = c['ws']; s = c.get('sep', ' ').join(ws)
    class E(Base): unique_word = 'evword:'
    marker = 'FAILED TO PARSE' in s
    want, key, rejected, nskip = {}, None, False, 0
    for w in ws:
        if '=' in w:
            key, v = w.split('=', 1); want[key] = intlit(v)
        elif key is None:
            if marker: nskip += 1; continue
            rejected = True; break
        elif isinstance(want[key], str): want[key] += ' ' + w
    with warnings.catch_warnings(record=True) as rec_:
        warnings.simplefilter('always')
        try: got = E().generate_data_dict(s)
        except trappy.TrappyParseError:
            return None if rejected else 'payload %r rejected' % s
        nw = len(rec_)
    if rejected: return 'payload %r accepted as %r' % (s, got)
    if not samerow(got, want): return 'payload %r decoded to %r, expected %r' % (s, got, want)
    if (nw > 0) != (nskip > 0): return 'payload %r: %d warnings, %d skipped words' % (s, nw, nskip)
    if c.get('via') and ws and ws == s.split() and '={' not in s and all(w.split('=', 1)[0] not in ('__line', '__comm', '__pid', '__cpu') for w in ws) and not any(w.endswith(':') for w in ws) and len(ws) > 0:
        p = put(render(dict(comm='c', pid=1, cpu=2, time='1.5', ev='ev_q', data=s)) + '\n')
        try: t = ftrace(p, scope='custom', events=['ev_q'], normalize_time=False)
        finally: rm(p)
        r = rows(t.ev_q.data_frame)[0][1]
        for k in ('__line', '__comm', '__pid', '__cpu'): r.pop(k)
        if not samerow(r, want): return 'row of payload %r is %r, expected %r' % (s, r, want)
