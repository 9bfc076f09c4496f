#!/usr/bin/env python3-vt
"""Check one property:  run.py C19 [--tier quick|thorough]      replay a stored input:  run.py --replay FILE"""
import sys, os, json, time, subprocess, tempfile, shutil, multiprocessing, importlib, argparse, re
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
REPO = os.environ.get('VP_REPO', '/repo')
VENV = '/opt/venv/bin/python'
WORKERS = 5

def refuter(pid, seed, secs, maxn, scratch, extra=()):
    d = tempfile.mkdtemp(dir=scratch); os.chmod(d, 0o777)
    env = dict(PATH='/usr/bin:/bin', HOME=d, MPLBACKEND='Agg', MPLCONFIGDIR=d, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TMPDIR=d, LANG='C.UTF-8',
               VP_WORKERS=str(WORKERS), OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    cmd = [VENV, os.path.join(HERE, 'refute', 'harness.py'), pid, str(seed), str(secs), str(maxn), d, REPO] + list(extra)
    if os.getuid() == 0: cmd = ['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups'] + cmd
    f = open(os.path.join(scratch, 'err%d-%d' % (seed, len(os.listdir(scratch)))), 'w')
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=f, env=env, cwd=d, text=True), f.name
def collect(p, timeout):
    pr, err = p
    try: out, _ = pr.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        pr.kill(); pr.communicate()
        return dict(error='bounded check: time limit', timeout=True, evaluations=0, distinct=0, samples=[], failure=None, known=[])
    try: return json.loads(out.strip().split('\n')[-1])
    except Exception:
        return dict(error='bounded check died (rc %s): %s' % (pr.returncode, open(err).read()[-2000:]), evaluations=0, distinct=0, samples=[], failure=None, known=[])

def prove_one(a):
    pid, uname, tier = a
    from pyvc.unit import run_unit
    m = importlib.import_module('units.' + pid)
    u = [x for x in m.UNITS if x.name == uname][0]
    return run_unit(u, REPO, tier)

def known_findings(pid):
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l)
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3).strip()
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay'); ap.add_argument('--no-proof', action='store_true'); ap.add_argument('--no-bounded', action='store_true')
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix='vp-'); os.chmod(scratch, 0o755)
    try:
        return replay(a, scratch) if a.replay else check(a, scratch)
    finally: shutil.rmtree(scratch, ignore_errors=True)

def replay(a, scratch):
    r = json.load(open(a.replay)); pid = r['property']
    if r.get('case') is None:
        print('no failing input is stored; re-checking the obligations of', pid)
        for u in importlib.import_module('units.' + pid).UNITS:
            x = prove_one((pid, u.name, 'quick'))
            for o in x['obligations']:
                if o['proved'] != o['n']: print('FAILED', u.name, o['name']); print(o['bad'][0][1][:4000])
            for e in x['errors']: print('ERROR', u.name, e)
        return 0
    f = os.path.join(scratch, 'case.json'); json.dump(r['case'], open(f, 'w')); os.chmod(f, 0o644)
    x = collect(refuter(pid, 0, 1, 0, scratch, ['--case', f]), 600)
    print('input:', json.dumps(r['case'])[:4000]); print('result:', x.get('error') or x['failure'] or 'the contract holds on this input')
    return 1 if x['failure'] else 0

def check(a, scratch):
    pid, tier = a.pid, a.tier; t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ev = os.path.join(HERE, 'evidence'); os.makedirs(ev, exist_ok=True)
    rdir = os.path.join(ev, 'replay'); os.makedirs(rdir, exist_ok=True)
    um = importlib.import_module('units.' + pid) if os.path.exists(os.path.join(HERE, 'units', pid + '.py')) else None
    has_ref = os.path.exists(os.path.join(HERE, 'refute', pid + '.py')) and not a.no_bounded
    secs, maxn = (25, 100000) if tier == 'quick' else (300, 1000000)
    viol, notes, undecided = [], [], []
    # the bounded stand-in and the known findings run beside the proofs
    procs = []
    if has_ref:
        procs = [refuter(pid, seed * 100 + i, secs, maxn, scratch) for i in range(WORKERS)]
        kp = refuter(pid, 0, 1, 0, scratch, ['--known'])
    units, refs = [], []
    def gather(block):
        """results of the bounded workers that are ready (all of them if block)"""
        for p in list(procs):
            if block or p[0].poll() is not None: procs.remove(p); refs.append(collect(p, secs + 120))
        return any(r['failure'] for r in refs)
    if um and not a.no_proof:
        jobs = [(pid, u.name, tier) for u in um.UNITS]
        with multiprocessing.Pool(min(8, max(1, len(jobs)))) as pool:
            rs = [pool.apply_async(prove_one, (j,)) for j in jobs]
            end = time.time() + (640 if tier == 'quick' else 3000)
            while time.time() < end and not all(r.ready() for r in rs):
                time.sleep(.2)
                if gather(False): break          # a failing input decides the check
            for j, r in zip(jobs, rs):
                if r.ready():
                    try: units.append(r.get(1)); continue
                    except Exception as e: why = 'unit failed: %r' % (e,)
                else: why = 'not finished'
                units.append(dict(unit=j[1], obligations=[], errors=[why], secs=0, functions=[], inlined=[], specced=[], paths=0, restarts=0, assumes=[], z3=0, cvc5=0, cross={}))
    nob = sum(o['n'] for u in units for o in u['obligations']); ndis = sum(o['proved'] for u in units for o in u['obligations'])
    bad = [(u, o) for u in units for o in u['obligations'] if any(x[0] != 'undecided' for x in o['bad'])]
    slow = [(u, o) for u in units for o in u['obligations'] if o['bad'] and all(x[0] == 'undecided' for x in o['bad'])]
    errs = [(u, e) for u in units for e in u['errors']]
    errs += [(u, 'no verdict within the wall-clock limit: ' + o['name']) for u, o in slow]
    known = []
    if has_ref:
        if gather(False):
            for p in procs: p[0].kill()
        gather(True)
        known = collect(kp, 200)
        if bad and not any(r['failure'] for r in refs):   # a failed proof: search longer for an input
            more = 45 if tier == 'quick' else 300
            ps = [refuter(pid, seed * 100 + 10 + i, more, maxn * 4, scratch) for i in range(WORKERS)]
            refs += [collect(p, more + 120) for p in ps]
    for r in refs:
        if r.get('error'): notes.append(r['error'])
    kf = known_findings(pid)
    if known:
        if known.get('error'): notes.append(known['error'])
        for fid, msg in known.get('known', []):
            if msg is None: continue
            if fid in kf: print('KNOWN-FINDING: property=%s %s' % (pid, kf[fid]))
            else: viol.append(dict(kind='input', name='stored input ' + fid, message=msg, case=dict(dict(importable_known(pid))[fid])))
    fails = [r['failure'] for r in refs if r['failure']]
    if fails:
        f = min(fails, key=lambda x: len(json.dumps(x['case'])))
        viol.append(dict(kind='input', name='contract evaluated on the real code', message=f['message'], case=f['case']))
    for u, o in bad:
        viol.append(dict(kind='obligation', name='%s: %s' % (u['unit'], o['name']), message=o['bad'][0][0] + '\n' + o['bad'][0][1], case=None))
    for u, e in errs:
        if 'vacuous' in e: viol.append(dict(kind='obligation', name='%s: vacuity guard' % u['unit'], message=e, case=None))
        else: undecided.append('%s: %s' % (u['unit'], e))
    rc = 0
    if viol:
        rc = 1
        inputs = [v for v in viol if v['case'] is not None]; v = (inputs or viol)[0]
        path = os.path.join(rdir, '%s-%s.json' % (pid, tier))
        json.dump(dict(property=pid, case=v['case'], what=v['message'], failed_obligations=[dict(obligation=x['name'], verifier_output=x['message']) for x in viol if x['kind'] == 'obligation'], undecided=undecided), open(path, 'w'), indent=1)
        for x in viol[:8]: print('%s: %s: %s' % ('FAILED OBLIGATION' if x['kind'] == 'obligation' else 'FAILING INPUT', x['name'], x['message'][:600]))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if inputs else ' no-failing-input-found'))
    for x in undecided: print('UNDECIDED: %s' % x[:600])
    for x in notes: print('NOTE: %s' % x[:600])
    level = 'proof' if units and not undecided and not bad and getattr(um, 'LEVEL', 'proof') == 'proof' else 'exploration'
    evals = sum(r['evaluations'] - r.get('skipped', 0) for r in refs)
    cov = dict(obligations=nob, discharged=ndis,
               checker_cmd='python3-vt run.py %s --tier %s' % (pid, tier),
               trusted_base=TRUST + (list(getattr(um, 'TRUST', [])) if um else []),
               functions_under_contract=sorted({f for u in units for f in u['functions']}),
               functions_inlined=sorted({f for u in units for f in u['inlined']}),
               functions_replaced_by_their_contract=sorted({f for u in units for f in u['specced']}),
               backends={b: sum(o['backends'].get(b, 0) for u in units for o in u['obligations']) for b in ('simplifier', 'z3', 'cvc5', 'automata', 'enumeration')},
               solver_secs=dict(z3=round(sum(u['z3'] for u in units), 2), cvc5=round(sum(u['cvc5'] for u in units), 2)),
               obligation_list=[dict(unit=u['unit'], name=o['name'], paths=o['n'], discharged=o['proved'], backends=o['backends']) for u in units for o in u['obligations']],
               unit_paths={u['unit']: u['paths'] for u in units}, cross_check={u['unit']: u['cross'] for u in units if u['cross']},
               undecided=undecided, failed_obligations=['%s: %s' % (u['unit'], o['name']) for u, o in bad],
               evaluations=evals, distinct_nontrivial=sum(r['distinct'] for r in refs),
               rule=(refs[0].get('rule') or '') if refs else 'no bounded stand-in', samples=[s for r in refs for s in r['samples']][:3] or ['none'],
               bounded_standin='bounded, never counted as proved: %d contract evaluations on the real code' % evals if has_ref else 'none',
               bounded_only=list(getattr(um, 'BOUNDED_ONLY', [])) if um else ['everything'],
               explanation=getattr(um, 'EXPLANATION', '') if um else 'bounded only')
    e = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
             assumptions=sorted({x for u in units for x in u['assumes']}), wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(e, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    print('%s %s: %d/%d obligations discharged, %d undecided units, %d bounded evaluations (%d distinct), %d violations, %.1fs' % (pid, tier, ndis, nob, len(undecided), evals, cov['distinct_nontrivial'], len(viol), time.time() - t0))
    return rc
def importable_known(pid):
    import ast
    # KNOWN cases are literal JSON-like values
    import importlib.util
    src = open(os.path.join(HERE, 'refute', pid + '.py')).read()
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'KNOWN':
            try: return ast.literal_eval(n.value)
            except Exception: pass
    class D(dict):
        def __missing__(self, k): return {}
    return D()
TRUST = ['pyvc: the verification-condition generator in /verif/pyvc (Python semantics of the subset used; cross-checked against CPython by tools/selftest.py)',
         'z3 5.3.2 and cvc5 1.1.2', 'models of the Python built-ins and of the libraries in pyvc/lib.py and in the unit files (assumed contracts, listed under assumptions)',
         'machine floating point is treated as exact real arithmetic unless the unit says otherwise; Python integers are exact']
if __name__ == '__main__': sys.exit(main())
