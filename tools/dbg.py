"""debug: run the units of a property and print every obligation.   dbg.py C19 [unit] [-v]"""
import sys, importlib
sys.path.insert(0, '/verif')
from pyvc.unit import run_unit
m = importlib.import_module('units.' + sys.argv[1])
v = '-v' in sys.argv
for u in m.UNITS:
    if len(sys.argv) > 2 and not sys.argv[2].startswith('-') and sys.argv[2] != u.name: continue
    if '-1' in sys.argv: u.split = 0
    r = run_unit(u, repo=__import__('os').environ.get('REPO', '/repo'), log=(lambda s: print('   ', s, flush=True)) if v else None)
    print('==', u.name, '%.1fs' % r['secs'], 'paths', r['paths'], 'restarts', r['restarts'])
    for o in r['obligations']:
        print('  ', 'ok ' if o['n'] == o['proved'] else 'BAD', o['name'], '%d/%d' % (o['proved'], o['n']), o['backends'], '%.1f' % o['secs'])
        for st, d in o['bad'][:1]: print('      ', st, d[:1500 if v else 600])
    for e in r['errors']: print('   ERROR', e)
    if v: print(r['inlined'])
