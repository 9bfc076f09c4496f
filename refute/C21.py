"""C21 on the real TrappyPlotterPreprocessor.filter_output (also through preprocess_cell)."""
from common import *
RULE = 'random cells of lines with markers (also inside text, nested, unbalanced, repeated imports and libraries over several cells of one notebook); compared with the statement line by line; non-trivial: at least one marker'
A, Z, X = '/* TRAPPY_PUBLISH_REMOVE_START */', '/* TRAPPY_PUBLISH_REMOVE_STOP */', '/* TRAPPY_PUBLISH_REMOVE_LINE */'
IMP = '/* TRAPPY_PUBLISH_IMPORT = "%s" */'; LIB = '<!-- TRAPPY_PUBLISH_SOURCE_LIB = "%s" -->'
F2, F3 = 'plotter/js/EventPlot.js', 'plotter/css/EventPlot.css'
def corpus():
    l = lambda k: ['k', k]
    return [dict(cells=[c]) for c in ([l('a'), A, l('b'), Z, l('c')], [l('a'), l('x') , ['m', 'pre ' + X + ' post'], l('b')], [A, l('a'), ['imp', F2], Z, ['imp', F2]], [['imp', F2], ['imp', F2], l('z')], [['lib', 'http://x/y.js'], l('q'), ['lib', 'http://x/y.js'], ['lib', 'z.js']], [l('a')], [l('')], [Z, l('a'), A, l('b')], [A, A, l('a'), Z, l('b')], [['m', 'foo ' + A], l('b'), ['m', Z + ' foo'], l('c')], [['m', A + Z], l('a'), l('b')], [['m', Z + X], l('a')], [['imp', 'own:tail'], l('q')])] + \
        [dict(cells=[[['imp', 'own:n%d' % i] for i in range(60)], [['imp', 'own:n%d' % i] for i in range(60)], [['lib', 'l%d' % i] for i in range(60)] + [['lib', 'l%d' % i] for i in range(60)]]), dict(cells=[[l('a'), X, l('b')]], via=1), dict(cells=[[['imp', 'own:mixed'], l('z')]])] + \
        [dict(cells=[[['imp', F2], l('a'), ['lib', 'u']], [['imp', F2], ['lib', 'u'], l('b'), A], [l('c'), ['imp', F3]]])]
def gen(r):
    def line():
        k = r.random()
        if k < .45: return ['k', r.choice(['', 'a', '  indented', '<div>', 'TRAPPY_PUBLISH_REMOVE_LINE', '/* comment */', 'x = "y"', 'é', 'a\tb '])]
        if k < .75: return ['m', r.choice([A, Z, X, A, Z, X, 'var x; ' + X, A + ' tail', '  ' + Z, X + A, A + Z])]
        if k < .9: return ['imp', r.choice([F2, F3, 'own:tail', 'own:lines', 'own:empty', 'own:mixed'])]
        return ['lib', r.choice(['http://a/b.js', 'c.js'])]
    return dict(cells=[[line() for _ in range(r.randint(1, 10))] for _ in range(r.randint(1, 3))], via=r.choice([0, 0, 1, 2, 3, 4, 5]))
OWN = {'mixed': u'caf\xe9 \u2192 \n\u00fc\n', 'tail': 'no newline at the end', 'lines': 'l1\n\n  l2 \nl3\n', 'empty': ''}
def check(c):
    from trappy.nbexport.exporter import TrappyPlotterPreprocessor
    import trappy
    base = os.path.dirname(trappy.__file__)
    pp = TrappyPlotterPreprocessor()
    own = {}
    for i in range(60): OWN['n%d' % i] = 'text %d\n' % i
    for k, v in OWN.items():
        own[k] = os.path.abspath('own_%s.js' % k)
        if not os.path.exists(own[k]): io.open(own[k], 'w', newline='', encoding='utf-8').write(v)
    seenf, seenl = set(), set()
    for ci, cell in enumerate(c['cells']):
        src, want, off = [], [], False
        for x in cell:
            if isinstance(x, str): x = ['m', x]
            kind, v = x
            if kind == 'imp':
                f = own[v[4:]] if v.startswith('own:') else v; s = IMP % f
            elif kind == 'lib': s = LIB % v
            else: s = v
            src.append(s)
            if A in s: off = True; continue
            if Z in s: off = False; continue
            if off or X in s: continue
            if kind == 'imp':
                if f in seenf: continue
                seenf.add(f); t = io.open(os.path.join(base, f), encoding='utf-8', errors='strict').read()
                ls = t.split('\n')
                want += ls[:-1] if ls[-1] == '' else ls
            elif kind == 'lib':
                if v in seenl: continue
                seenl.add(v); want.append('<script src="%s" type="text/javascript" charset="utf-8"></script>' % v)
            else: want.append(s)
        if c.get('via'):
            import nbformat.v4 as nb
            text = '\n'.join(src)
            o = nb.new_output('display_data', data={'text/html': text, 'text/plain': text})
            keep = [nb.new_output('stream', text=text), nb.new_output('display_data', data={'text/plain': text}), nb.new_output('display_data', data={'image/png': text}), nb.new_output('execute_result', data={'text/plain': text})]
            at = c['via'] % (len(keep) + 1)
            md = nb.new_markdown_cell(text); pp.preprocess_cell(md, {}, 0)
            if md.source != text: return 'a text cell was changed'
            cl = nb.new_code_cell(text, outputs=keep[:at] + [o] + keep[at:]); res = {'x': 1}
            back = pp.preprocess_cell(cl, res, ci)
            if back[0] is not cl or back[1] is not res or res != {'x': 1}: return 'the cell or the resources are not handed on'
            if cl.source != text: return 'the source of a cell was changed'
            for x, y in zip(cl.outputs, keep[:at] + [None] + keep[at:]):
                if y is None: got = x.data['text/html']; ok = x.data['text/plain'] == text
                elif y.output_type == 'stream': ok = x.text == text
                else: ok = list(x.data.values()) == [text]
                if not ok: return 'an output that is not displayed HTML was changed'
        else: got = pp.filter_output('\n'.join(src))
        if got != '\n'.join(want): return 'cell %d gives %r, expected %r' % (ci, got[:300], '\n'.join(want)[:300])
