import sys, importlib, runpy, os, json
sys.path.insert(0, '/verif'); os.chdir('/verif')
P = runpy.run_path('tools/design_props.py')['P']
props = {json.loads(l)['id']: json.loads(l) for l in open('properties.jsonl')}
caught = {}
if os.path.exists('tools/caught.txt'):
    for l in open('tools/caught.txt'):
        if l.strip(): k, v = l.strip().split(' ', 1); caught.setdefault(k.split('-')[0], []).append((k, v))
fixed = {}
for l in open('known-findings.txt'):
    if l.startswith(('fixed:', 'finding:')): fixed.setdefault(l.split('property=')[1].split()[0], []).append(l.strip().split('property=')[0] + l.strip().split(' ', 2)[2])
o = [open('tools/design_head.md').read(), '## 6. Per property\n']
for p in sorted(props):
    o.append('### %s  %s\n' % (p, props[p]['title']))
    if not os.path.exists('units/%s.py' % p): o.append('Not claimed.\n'); continue
    m = importlib.import_module('units.' + p)
    o.append(P[p] + '\n')
    fs = []; asm = []
    for u in m.UNITS:
        for f in u.functions: f in fs or fs.append(f)
        for a in u.assumes or []: a in asm or asm.append(a)
    o.append('*Under contract (unbounded):* ' + ', '.join(f.replace('trappy.', '', 1) for f in fs) + '.\n')
    lem = [u.name for u in m.UNITS if not u.functions]
    if lem: o.append('*Lemmas:* ' + ', '.join(lem) + '.\n')
    o.append('*Assumed:* ' + '; '.join(asm) + '.\n')
    r = runpy.run_path
    if p in fixed: o.append('*Defects:* ' + '; '.join(fixed[p]) + '.\n')
    if p in caught: o.append('*Planted bugs:* ' + '; '.join('%s %s' % x for x in caught[p]) + '.\n')
open('DESIGN.md', 'w').write('\n'.join(o))
