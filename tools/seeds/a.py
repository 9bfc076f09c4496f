C12 = '''
import trappy, pandas as pd
def df(lines):
    return pd.DataFrame({'__line': lines, 'v': [10 * l for l in lines]}, index=pd.Index([float(l) for l in lines], name='Time'))
class T(object): pass
tables = dict(aa=[0, 3, 4], bb=[1, 2, 7], cc=[5, 6, 8])
tr = trappy.BareTrace()
for k in tables: tr.add_parsed_event(k, df(tables[k]))
seen = []
from trappy.ftrace import GenericFTrace
GenericFTrace.apply_callbacks(tr, {k: (lambda row, k=k: seen.append((row['__line'], k, row['v'], row['Index']))) for k in tables})
want = sorted((l, k, 10 * l, float(l)) for k in tables for l in tables[k])
assert seen == want, seen
'''
SEEDS = {
 'C12-a': dict(property='C12', file='trappy/ftrace.py', old="            line_col_idx = col_idxs[event]['__line']\n", new="            line_col_idx = 0\n",
   needs='two tables whose times do not follow the line order, e.g. two events with equal times or a table with adjusted times', breaks='callbacks are made in time order instead of line order',
   demo=C12.replace('[float(l) for l in lines]', '[5.0 + i for i in range(len(lines))]').replace(" float(l))", " 5.0 + tables[k].index(l))")),
 'C12-b': dict(property='C12', file='trappy/ftrace.py', old='            event_row = next(iters[event_name], None)\n            if event_row:', new='            event_row = next(iters[event_name], None)\n            if event_row and event_row[-1]:',
   needs='a table with a row whose last column is zero or empty, after its first row', breaks='that row and all later rows of the table are never delivered', demo=C12.replace("'v': [10 * l for l in lines]", "'v': [10 * (l % 3) for l in lines]").replace('10 * l, float', '10 * (l % 3), float')),
 'C13-a': dict(property='C13', file='trappy/utils.py', old='            delta = (index[dup_index_right + 1] - dup) / num_dups', new='            delta = (index[dup_index_right + 1] - dup) / max(num_dups - 1, 1)',
   needs='a group of equal times followed by a close later time', breaks='the last of the equal times is moved onto the next different time, so times are no longer unique',
   demo='''
import pandas as pd
from trappy.utils import handle_duplicate_index
s = pd.Series([0, 1, 2, 3], index=pd.Index([1.0, 1.0, 1.0, 1.0000002], name='Time'))
r = handle_duplicate_index(s)
assert list(r.values) == [0, 1, 2, 3] and r.index.is_unique and r.index.is_monotonic_increasing, r
assert all(x < 1.0000002 for x in r.index[:3])
'''),
 'C13-b': dict(property='C13', file='trappy/utils.py', old="        if delta > max_delta:\n            delta = max_delta", new="        if delta > 1:\n            delta = max_delta",
   needs='equal times followed by a time that is between max_delta and one second away', breaks='adjusted times are further apart than the given maximum step',
   demo='''
import pandas as pd
from trappy.utils import handle_duplicate_index
s = pd.Series([0, 1, 2], index=pd.Index([1.0, 1.0, 1.5], name='Time'))
r = handle_duplicate_index(s)
assert list(r.values) == [0, 1, 2] and r.index[1] - r.index[0] < 2e-6, r
'''),
 'C19-a': dict(property='C19', file='trappy/plotter/PlotLayout.py', old='        if self.num_plots % self.cols != 0:\n            self.rows += 1', new='        if self.num_plots % self.cols > 1:\n            self.rows += 1',
   needs='exactly one plot left over for the last row', breaks='the last plot has no cell', demo='''
from trappy.plotter.PlotLayout import PlotLayout
for cols in range(1, 5):
    for n in range(1, 14):
        l = PlotLayout(cols, n, title='')
        cells = [l.get_axis(i) for i in range(n)]
        assert len({id(c) for c in cells}) == n, (cols, n)
        import matplotlib.pyplot as plt; plt.close('all')
'''),
 'C19-b': dict(property='C19', file='trappy/plotter/PlotLayout.py', old='        val_y = linear_val // self.cols', new='        val_y = linear_val // max(self.cols, self.rows)',
   needs='a grid with more rows than columns', breaks='plots share a cell', demo='''
from trappy.plotter.PlotLayout import PlotLayout
import matplotlib.pyplot as plt
for cols in range(1, 5):
    for n in range(1, 14):
        l = PlotLayout(cols, n, title='')
        assert len({id(l.get_axis(i)) for i in range(n)}) == n, (cols, n)
        plt.close('all')
'''),
 'C20-a': dict(property='C20', file='trappy/plotter/Utils.py', old="        if prev_pid in pmap:\n            name = pmap[prev_pid]\n            data[name][-1][1] = index\n            del pmap[prev_pid]",
   new="        if prev_pid in pmap:\n            name = pmap[prev_pid]\n            if next_pid == prev_pid:\n                continue\n            data[name][-1][1] = index\n            del pmap[prev_pid]",
   needs='a switch event from a pid to the same pid', breaks='such a switch neither ends the running interval nor starts a new one', demo='''
import trappy, pandas as pd
from trappy.plotter.Utils import get_trace_event_data
tr = trappy.BareTrace()
tr.add_parsed_event('sched_switch', pd.DataFrame({'prev_pid': [0, 7, 7], 'next_pid': [7, 7, 0], 'next_comm': ['a', 'a', 'swapper'], '__cpu': [0, 0, 0]}, index=pd.Index([1., 2., 3.], name='Time')))
data, procs, lims = get_trace_event_data(tr)
assert dict(data) == {'a-7': [[1., 2., 0], [2., 3., 0]]}, dict(data)
'''),
 'C20-b': dict(property='C20', file='trappy/plotter/Utils.py', old='            if pids and next_pid not in pids:\n                continue\n', new='            if pids and next_pid not in pids and not execnames:\n                continue\n',
   needs='both names and pids are given and a task has a wanted name but an unwanted pid', breaks='intervals of tasks that were not selected are returned', demo='''
import trappy, pandas as pd
from trappy.plotter.Utils import get_trace_event_data
tr = trappy.BareTrace()
tr.add_parsed_event('sched_switch', pd.DataFrame({'prev_pid': [0, 7, 8], 'next_pid': [7, 8, 0], 'next_comm': ['a', 'a', 'swapper'], '__cpu': [0, 0, 0]}, index=pd.Index([1., 2., 3.], name='Time')))
data, procs, lims = get_trace_event_data(tr, execnames=['a'], pids=[7])
assert set(data) == {'a-7'}, dict(data)
'''),
 'C21-a': dict(property='C21', file='trappy/nbexport/exporter.py', old='                import_file = os.path.join(trappy_base, import_match.group(1))\n                if import_file in self.inlined_files:\n                    continue\n',
   new='                import_file = os.path.join(trappy_base, import_match.group(1))\n                if self.inlined_files and import_file in self.inlined_files[-1]:\n                    continue\n',
   needs='a file imported again after a different file was imported in between', breaks='the file is inlined twice', demo='''
from trappy.nbexport.exporter import TrappyPlotterPreprocessor as P
import os, trappy
base = os.path.dirname(os.path.abspath(trappy.__file__))
p = P()
imp = lambda f: '/* TRAPPY_PUBLISH_IMPORT = "%s" */' % f
a, b = 'plotter/js/EventPlot.js', 'plotter/js/ILinePlot.js'
assert os.path.isfile(os.path.join(base, a)) and os.path.isfile(os.path.join(base, b))
p.filter_output(imp(a) + '\\n' + imp(b))
assert p.filter_output('x\\n' + imp(a) + '\\ny') == 'x\\ny'
'''),
 'C21-b': dict(property='C21', file='trappy/nbexport/exporter.py', old="            if REMOVE_START in line:\n                multi_line_remove = True\n                continue\n            if REMOVE_STOP in line:",
   new="            if REMOVE_START in line:\n                multi_line_remove = not multi_line_remove\n                continue\n            if REMOVE_STOP in line:",
   needs='two remove-start markers before a remove-stop marker', breaks='lines inside the outer pair are published', demo='''
from trappy.nbexport.exporter import TrappyPlotterPreprocessor as P
S, E = '/* TRAPPY_PUBLISH_REMOVE_START */', '/* TRAPPY_PUBLISH_REMOVE_STOP */'
r = P().filter_output('\\n'.join(['a', S, 'b', S, 'secret', E, 'z']))
assert r == 'a\\nz', r
'''),
 'C25-a': dict(property='C25', file='trappy/wa/results.py', old='''                        if run_number not in bench_dict[bench][run_id]:
                            bench_dict[bench][run_id][run_number] = result''', new='''                        if not bench_dict[bench][run_id].get(run_number):
                            bench_dict[bench][run_id][run_number] = result''',
   needs='a combination listed twice whose first value is zero', breaks='the second value replaces the first', demo='''
import os, trappy.wa
d = os.environ['DEMO_DIR']
open(d + '/results.csv', 'w').write('id,workload,iteration,metric,value,units\\nk_1,b,1,score,0,x\\nk_1,b,1,score,5,x\\n')
r = trappy.wa.get_results(d)
assert r['b']['k'].tolist() == [0], r
'''),
 'C25-b': dict(property='C25', file='trappy/wa/sysfs_extractor.py', old='            if not os.path.isfile(property_path):\n                continue', new='            if not os.path.isfile(property_path):\n                break',
   needs='a dump in which one known parameter file is missing', breaks='every parameter after the missing one is lost', demo='''
import os, trappy.wa
d = os.path.join(os.environ['DEMO_DIR'], 'after', 'sys', 'devices', 'virtual', 'thermal', 'thermal_zone0'); os.makedirs(d)
open(d + '/k_po', 'w').write('5\\n'); open(d + '/policy', 'w').write('step_wise\\n'); open(d + '/cdev0_weight', 'w').write('1024\\n')
r = trappy.wa.SysfsExtractor(os.environ['DEMO_DIR']).get_parameters()
assert r == {'k_po': 5, 'policy': 'step_wise', 'cdev0_weight': 1024}, r
'''),
}
