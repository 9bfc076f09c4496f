"""C25 on the real results and sysfs readers."""
from common import *
import re
RULE = 'random results files (several benchmarks, runs, iterations, metrics of every spelling, repeated combinations, irrelevant metrics) and sysfs dumps (known and unknown files, integers and text, with and without a final newline); the tables are compared entry by entry; non-trivial: at least one score'
def corpus():
    R = [['wl_1', 'bench', '1', 'score', '10'], ['wl_1', 'bench', '1', 'score', '11'], ['wl_2', 'bench', '2', 'score_1', '12.5'], ['wl_1', 'other', '1', 'FPS_2', '30'], ['wl_1', 'bench', '1', 'Overall_Score 3', '99'], ['wl_1', 'bench', '1', 'time', '5'], ['zz_3', 'other', '1', 'FPS', '60']]
    return [dict(rows=R, name=n, files=[['k_d', '5\n'], ['policy', 'power_allocator\n'], ['cdev0_weight', '1024'], ['trip_point_1_temp', '-70000\n'], ['other', '1\n'], ['k_i', 'x y'], ['integral_cutoff', '']]) for n in (None, 'mine')] + [dict(rows=[R[0]], name=None, files=[]), dict(rows=[R[0]], name=None, files=None)]
def gen(r):
    met = lambda: r.choice(['score', 'score_%d' % r.randint(0, 3), 'score %d' % r.randint(0, 3), 'Overall_Score', 'Overall_Score_%d' % r.randint(1, 4), 'Overall_Score %d' % r.randint(1, 4), 'FPS', 'FPS_%d' % r.randint(0, 2), 'time', 'Score', 'myFPS', 'max score', 'scores', 'score_x_2'])
    R = [[r.choice(['wl_1', 'wl_2', 'a_b_12', 'plain', 'x_1_y']), r.choice(['bench', 'glb', 'o t']), '1', met(), r.choice(['%d' % r.randint(0, 99), '%.2f' % (r.random() * 50), '-3', '1e3'])] for _ in range(r.randint(1, 12))]
    fs = [[f, r.choice(['5', '-17', 'abc', '12 34', '', '0x10', ' 7', 'multi\nline']) + r.choice(['\n', '\n', '', ' \n'])] for f in r.sample(['integral_cutoff', 'k_d', 'k_i', 'k_po', 'k_pu', 'policy', 'sustainable_power', 'cdev0_weight', 'cdev12_weight', 'trip_point_0_temp', 'trip_point_10_temp', 'temp', 'type', 'cdev0', 'trip_point_0_hyst'], r.randint(0, 8))]
    return dict(rows=R, name=r.choice([None, None, 'mine']), files=fs)
def metric(m):
    """(is a score, run number)"""
    if not (m.startswith('Overall_Score') or m.startswith('score') or m.startswith('FPS')): return None
    k = re.search(r'(.+)[ _](\d+)', m)
    if not k: return 0
    return int(k.group(2)) - (1 if k.group(1) == 'Overall_Score' else 0)
def check(c):
    from trappy.wa import get_results, SysfsExtractor
    import csv, shutil
    p = put('', 'results.csv'); d = os.path.dirname(p)
    try:
        with open(p, 'w', newline='') as f:
            w = csv.writer(f); w.writerow(['id', 'spec', 'iteration', 'metric', 'value']); w.writerows(c['rows'])
        want = {}
        for run, bench, _, m, v in c['rows']:
            n = metric(m)
            if n is None: continue
            key = (bench, c['name'] or re.sub(r'_\d+', '', run), n)
            want.setdefault(key, float(v))
        if want:
            t = get_results(d if len(c['rows']) % 2 else p, name=c['name'])
            got = {}
            for col in t.columns:
                for n, v in zip(t.index, t[col].tolist()):
                    if v == v: got[(col[0], col[1], int(n))] = float(v)
            if len(set(t.columns)) != len(t.columns): return 'repeated columns'
            if got != want: return 'results %r, expected %r' % (got, want)
        if c['files'] is not None:
            z = os.path.join(d, 'after', 'sys', 'devices', 'virtual', 'thermal', 'thermal_zone0'); os.makedirs(z)
            for n, s in c['files']: open(os.path.join(z, n), 'w', newline='').write(s)
        known = {}
        for n, s in c['files'] or []:
            if n in ('integral_cutoff', 'k_d', 'k_i', 'k_po', 'k_pu', 'policy', 'sustainable_power') or re.fullmatch(r'cdev\d+_weight|trip_point_\d+_temp', n):
                s = s[:-1] if s.endswith('\n') else s
                try: known[n] = int(s)
                except ValueError: known[n] = s
        ex = SysfsExtractor(d)
        for _ in range(2):
            got = ex.get_parameters()
            if got != known or {k: type(v) for k, v in got.items()} != {k: type(v) for k, v in known.items()}: return 'parameters %r, expected %r' % (got, known)
    finally: rm(p)
