"""Bounded evaluation of a property's contract on the real code (run by /opt/venv/bin/python as nobody).

harness.py <property> <seed> <seconds> <maxcases> <scratch> <repo> [--case FILE | --known]
Prints one JSON line with what was executed and the first failing case."""
import sys, os, json, time, random, importlib.util, warnings, traceback, hashlib, faulthandler
faulthandler.enable()
def load(pid):
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), pid + '.py')
    sys.path.insert(0, os.path.dirname(p))
    spec = importlib.util.spec_from_file_location('refute_' + pid, p)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return m
class Skip(Exception): pass
def run_case(m, case):
    """None, or a message describing how the contract fails"""
    import signal
    class Late(BaseException): pass
    def late(*_): raise Late()
    signal.signal(signal.SIGALRM, late); signal.alarm(60)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return m.check(case)
    except Late: return 'does not finish within 60 s'
    except Exception as e:
        if type(e).__name__ == 'Skip': return 'SKIP'
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if '/trappy/' in f.filename]
        where = '%s:%s' % (os.path.basename(last[-1].filename), last[-1].name) if last else '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        return 'unexpected %s in %s: %s' % (type(e).__name__, where, str(e)[:300])
    finally: signal.alarm(0)
def main():
    pid, seed, secs, maxn, scratch, repo = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), int(sys.argv[4]), sys.argv[5], sys.argv[6]
    sys.path.insert(0, repo); sys.dont_write_bytecode = True
    os.environ['TRAPPY_REPO'] = repo
    os.chdir(scratch)
    out = os.fdopen(os.dup(1), 'w'); sys.stdout = open(os.devnull, 'w')
    res = dict(evaluations=0, skipped=0, distinct=0, samples=[], failure=None, known=[], rule='')
    try:
        m = load(pid)
        res['rule'] = m.RULE
        if '--case' in sys.argv:
            case = json.load(open(sys.argv[sys.argv.index('--case') + 1]))
            res['failure'] = run_case(m, case)
        elif '--known' in sys.argv:
            for fid, case in getattr(m, 'KNOWN', []):
                r = run_case(m, case)
                res['known'].append((fid, None if r == 'SKIP' else r))
        else:
            t0 = time.time(); seen = set(); rng = random.Random(seed)
            def one(case):
                case = json.loads(json.dumps(case))
                r = run_case(m, case)
                res['evaluations'] += 1
                if r == 'SKIP': res['skipped'] += 1; return False
                h = hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()
                if h not in seen:
                    seen.add(h)
                    if len(res['samples']) < 2: res['samples'].append(case)
                if r is not None: res['failure'] = dict(case=case, message=r); return True
            stop = False
            widx, wn = seed % 100, int(os.environ.get('VP_WORKERS', '1'))
            for i, c in enumerate(m.corpus() if hasattr(m, 'corpus') else []):
                if i % wn != widx % wn: continue
                if one(c): stop = True; break
            n = 0
            while not stop and time.time() - t0 < secs and n < maxn:
                n += 1
                if one(m.gen(rng)): break
            res['distinct'] = len(seen); res['secs'] = time.time() - t0
    except Exception:
        res['error'] = traceback.format_exc()[-3000:]
    out.write(json.dumps(res) + '\n'); out.flush()
    os._exit(0)
if __name__ == '__main__': main()
