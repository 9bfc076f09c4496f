"""Write MANIFEST.json from what exists under units/ and refute/."""
import json, os, sys, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    u = os.path.exists(os.path.join(HERE, 'units', i + '.py')); r = os.path.exists(os.path.join(HERE, 'refute', i + '.py'))
    if not u:
        na.append(dict(property=i, reason='no contract of this property has been discharged yet')); continue
    m = importlib.import_module('units.' + i)
    lvl = getattr(m, 'LEVEL', 'proof')
    fns = sorted({f for x in m.UNITS for f in x.functions})
    short = [f.replace('trappy.', '', 1) for f in fns]
    note = 'Contracts on the real source, every obligation discharged by z3/cvc5 on each run: ' + ', '.join(short) + '. '
    bo = getattr(m, 'BOUNDED_ONLY', [])
    if bo: note += 'Bounded only (contract evaluated on generated inputs, not proved): ' + '; '.join(bo) + '. '
    if getattr(m, 'EXPLANATION', ''): note += m.EXPLANATION + ' '
    note += 'Assumed: ' + '; '.join(sorted({a for x in m.UNITS for a in x.assumes} | set(getattr(m, 'TRUST', [])))) + '.'
    checks.append(dict(property=i, quick_cmd='python3-vt run.py %s --tier quick' % i, thorough_cmd='python3-vt run.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique='contract-based deductive verification (pyvc VC generator on the real Python source, z3/cvc5)' + ('; bounded contract evaluation beside it' if r else ''),
                       level=lvl, level_note=note[:4000]))
d = dict(version=1, setup_cmd='python3-vt tools/selftest.py --quick', checks=checks, not_applicable=na,
         notes='See DESIGN.md. Each check regenerates every obligation from the current source of /repo.')
json.dump(d, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
