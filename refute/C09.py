"""C09 on real FTrace / SysTrace objects: histories of opens of one trace file with its cache."""
from common import *
import json, shutil
RULE = 'random histories of up to 7 steps on one trace file: opens with random event subsets, windows, normalization and scopes, content changes of the trace, removal / corruption / truncation of the cache description and removal of cached tables; after every open all tables, base time, end time and metadata are compared with a parse that uses no cache; also checks which tables were read from the cache; non-trivial: at least two opens'
# the cells of the generated traces survive a CSV file; those that do not are the listed findings
# texts that a CSV file keeps
WORDS = ['-', '--', '?', 'na', 'n.a.', '.', '#1', 'x#y', "'q'", "'", 'a|b', '0x', 'e5', '-w', '+', ';', 'a;b', '\\', 'a\\n', '%s', '{}', '[1]', '(null)', 'none', 'undefined', 'unknown', 'yes', 'on', 't', 'f', '2020-01-01x', '1,5', '1:2', '12ab', '$', '=1', 'a=b', '\u00e9', 'NAN_', '<idle>', '1%']
EVS = ['ev_a', 'ev_b', 'ev_c', 'none']
KNOWN = [
    ('csv-leading-zeros', dict(text='c-1 [000] 1.5: ev_a: a=00000001\n', steps=[['open', ['ev_a'], None, None, False], ['open', ['ev_a'], None, None, False]])),
    ('csv-null-word', dict(text='c-1 [000] 1.5: ev_a: a=null\n', steps=[['open', ['ev_a'], None, None, False], ['open', ['ev_a'], None, None, False]])),
    ('csv-empty-string', dict(text='c-1 [000] 1.5: ev_a: a=\nc-1 [000] 1.6: ev_a: a=x\n', steps=[['open', ['ev_a'], None, None, False], ['open', ['ev_a'], None, None, False]])),
    ('csv-numeric-comm', dict(text='123-1 [000] 1.5: ev_a: a=1\n', steps=[['open', ['ev_a'], None, None, False], ['open', ['ev_a'], None, None, False]])),
    ('csv-mixed-column', dict(text='c-1 [000] 1.5: ev_a: a=1\nc-1 [000] 1.6: ev_a: a=x\n', steps=[['open', ['ev_a'], None, None, False], ['open', ['ev_a'], None, None, False]])),
    ('csv-float-text', dict(text='c-1 [000] 1.5: ev_a: a=1.50\n', steps=[['open', ['ev_a'], None, None, False], ['open', ['ev_a'], None, None, False]])),
    ('csv-bool-word', dict(text='c-1 [000] 1.5: ev_a: a=True\n', steps=[['open', ['ev_a'], None, None, False], ['open', ['ev_a'], None, None, False]])),
    ('csv-named-by-class', dict(text='c-1 [000] 1.5: word_one: a=1\nc-1 [000] 1.6: word_two: a=2\n', steps=[['openreg', 'SameName', 'word_one:'], ['openreg', 'SameName', 'word_two:']])),
]
def corpus():
    t1 = 'cpus=4\nc-1 [000] 1.5: ev_a: a=1 b=wx\nd-2 [001] 1.5: ev_b: a=2\nc-1 [002] 2.25: ev_a: a=3 b=wy z\ne-9 [003] 3.5: none: a=4\n'
    t2 = t1.replace('2.25', '2.75').replace('a=2', 'a=9'); O = lambda e, w=None, a=None, n=False: ['open', e, w, a, n]
    out = []
    for bad in ('delmeta', 'truncmeta', 'emptymeta', 'listmeta', 'nomd5', 'nobase', 'noend', 'noftrace', 'delcsv ev_a', 'deldir', 'numbermeta', 'badmd5'):
        out.append(dict(text=t1, steps=[O(['ev_a', 'ev_b']), [bad], O(['ev_a', 'ev_b'], n=True), O(['ev_b', 'ev_a'])]))
    out += [dict(text=t1, steps=[O(['ev_a'], [0.5, None], None, True), O(['ev_a', 'ev_b']), O(['ev_b', 'ev_c']), O(['ev_a', 'ev_b', 'ev_c'], None, [1.5, 2.0])]),
            dict(text=t1, steps=[O(['ev_a']), ['write', t2], O(['ev_a', 'ev_b']), ['write', t1], O(['ev_b'])]),
            dict(text=t1, steps=[O(['ev_c']), O(['ev_c']), O(['ev_a'], None, None, True), O(['ev_a'])]),
            dict(text=t1, steps=[O(['ev_a']), ['write', t2], O(['ev_b']), O(['ev_a'])]), dict(text='nothing here\n', steps=[O(['ev_a']), O(['ev_a'])])]
    tw = ''.join('c-1 [000] 1.%03d: ev_a: a=%s\n' % (i, w) for i, w in enumerate(WORDS))
    out += [dict(text=tw, steps=[O(['ev_a']), O(['ev_a'])]), dict(text='c-1 [000] 1.5: ev_a: a=-\nc-1 [000] 1.6: ev_a: b=2\n', steps=[O(['ev_a']), O(['ev_a'])])]
    return out
def text(r):
    n = r.randint(1, 8)
    L = [r.choice(['version = 6', 'cpus=8', '# x', 'cpus=2'])] if r.random() < .6 else []
    for t in ascending(r, n):
        L.append(render(rec(r, r.choice(EVS), t, r.choice(['a=%d' % r.randint(0, 10**9), 'a=%d b=w%d' % (r.randint(-9, 99), r.randint(0, 9)), 'b=w%d x, y' % r.randint(0, 9), 'b=w"q" a=5', 'b=%s a=6' % r.choice(WORDS), 'b=%s' % r.choice(WORDS), 'a=7 arr={%s}' % ' '.join(str(r.randint(0, 99)) for _ in range(r.randint(1, 3)))]), comm=r.choice(['ab', 'cd e', 'kw/1', 'x,y', 'q"t', '<...>', '#a', "it's", 'k;x']))))
    return '\n'.join(L) + '\n'
def gen(r):
    tx = text(r); steps = []
    def op():
        w = r.choice([None, None, None, [r.choice([0, 1, 250001e-6]), r.choice([None, 1.5, 0.25])]]); a = r.choice([None, None, None, [r.choice([0, 100.]), r.choice([None, 2000.])]])
        return ['open', r.sample(EVS[:3], r.randint(1, 3)), w, a, r.random() < .5]
    for _ in range(r.randint(2, 6)):
        k = r.random()
        if k < .65 or not steps: steps.append(op())
        elif k < .75: steps.append(['write', r.choice([text(r), tx.replace('1', '2', 1), tx + 'c-1 [000] 9999.5: ev_a: a=1\n', tx])])
        else: steps.append([r.choice(['delmeta', 'truncmeta', 'emptymeta', 'listmeta', 'nomd5', 'nobase', 'noend', 'noftrace', 'delcsv ev_a', 'delcsv ev_b', 'deldir', 'junkcsv', 'badmd5'])])
    steps.append(op())
    return dict(text=tx, steps=steps)
def snap(t):
    return {n: rows(getattr(t, n).data_frame) for n in t.class_definitions}, t.basetime, t.endtime, dict(t.metadata), {n: [str(c) for c in getattr(t, n).data_frame.columns] for n in t.class_definitions if len(getattr(t, n).data_frame)}
def check(c):
    import trappy
    p = put(c['text']); cd = os.path.join(os.path.dirname(p), '.trace.txt.cache')
    meta = os.path.join(cd, 'metadata.json'); opens = 0; have = set(); valid = False; content = c['text']; cached = None
    try:
        for si, st in enumerate(c['steps']):
            if st[0] == 'open':
                kw = dict(scope='custom', events=list(st[1]), normalize_time=st[4])
                if st[2]: kw['window'] = tuple(st[2])
                if st[3]: kw['abs_window'] = tuple(st[3])
                fresh = snap(ftrace(p, **kw)); t = ftrace(p, cache=True, **kw); opens += 1
                got = snap(t)
                for k, what in enumerate(['tables', 'base time', 'end time', 'metadata', 'columns']):
                    if k == 0:
                        for n in fresh[0]:
                            m = diffrows(got[0][n], fresh[0][n], 'step %d: table %s with the cache' % (si, n))
                            if m: return m
                    elif got[k] != fresh[k]: return 'step %d: %s %r with the cache, %r without' % (si, what, got[k], fresh[k])
                used = {n for n in st[1] if getattr(t, n).cached}
                expect = have & set(st[1]) if valid and cached == content else set()
                if used != expect: return 'step %d: tables %r were read from the cache, expected %r' % (si, sorted(used), sorted(expect))
                have = (have if expect else set()) | set(st[1]); valid = True; cached = content
                missing = [n for n in have if not os.path.exists(os.path.join(cd, n + '.csv'))]
                if missing or not os.path.exists(meta): return 'step %d: not in the cache afterwards: %r' % (si, missing)
                continue
            if st[0] == 'openreg':
                cls = trappy.register_dynamic_ftrace(st[1], st[2])
                try: fresh = snap(ftrace(p, scope='custom', events=[st[2]])); t = ftrace(p, cache=True, scope='custom', events=[st[2]])
                finally: trappy.unregister_dynamic_ftrace(cls)
                m = diffrows(snap(t)[0]['same_name'], fresh[0]['same_name'], 'step %d: table' % si)
                if m: return m
                continue
            if st[0] == 'write':
                with io.open(p, 'w', encoding='utf-8', newline='') as f: f.write(st[1])
                content = st[1]
                continue
            if not os.path.isdir(cd): continue
            if st[0] == 'deldir': shutil.rmtree(cd); valid = False; have = set(); continue
            if st[0].startswith('delcsv'):
                n = st[0].split()[1]
                if os.path.exists(os.path.join(cd, n + '.csv')): os.remove(os.path.join(cd, n + '.csv'))
                have.discard(n); continue
            if st[0] == 'junkcsv':
                open(os.path.join(cd, 'unrelated.csv'), 'w').write('x\n'); continue
            if not os.path.exists(meta): continue
            m = open(meta).read()
            try: j = json.loads(m)
            except ValueError: j = {}
            if not isinstance(j, dict): j = {}
            if st[0] == 'delmeta': os.remove(meta)
            else:
                if st[0] == 'truncmeta': new = m[:len(m) // 2]
                elif st[0] == 'emptymeta': new = ''
                elif st[0] == 'listmeta': new = '[1, 2]'
                elif st[0] == 'numbermeta': new = '17'
                else:
                    k = dict(nomd5='md5sum', nobase='basetime', noend='endtime', noftrace='ftrace', badmd5='md5sum')[st[0]]
                    if st[0] == 'badmd5': j[k] = '0' * 32
                    else: j.pop(k, None)
                    new = json.dumps(j)
                open(meta, 'w').write(new)
            valid = False
    finally: rm(p)
    if opens < 1 and not any(s[0] == 'openreg' for s in c['steps']): raise Skip()
