import runpy, os
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b.py'))
FT, B, F = _b['FT'], _b['B'], _b['F']
STUB = FT + '''
import stat, tempfile
b = os.path.join(D, 'bin'); os.mkdir(b); p = os.path.join(b, 'trace-cmd')
open(p, 'w').write('#!/bin/sh\\nprintf "%%s\\\\n" "$@" > %s/args\\nfor x; do :; done\\ncat "$x"\\n' % D); os.chmod(p, 0o755)
os.environ['PATH'] = b + ':' + os.environ['PATH']
'''
SEEDS = {
 'C03-a': dict(property='C03', file=F, old=r'(?P<pid>\d+)', new=r'(?P<pid>\d{1,6})', needs='a process id of seven digits (pid_max is 4194304 on 64 bit)', breaks='the events of that task are lost',
   demo=FT + '''
t = load('c-4194303 [000] 1.5: ev_a: a=1\\nc-5 [000] 1.6: ev_a: a=2\\n', events=['ev_a'])
assert list(t.ev_a.data_frame['__pid']) == [4194303, 5]
'''),
 'C17-b': dict(property='C17', file='trappy/stats/Topology.py', old="        if level_name not in self._levels:\n            self._levels[level_name] = []\n\n        self._levels[level_name] += level_vals", new="        if level_name not in self._levels:\n            self._levels[level_name] = level_vals\n        else:\n            self._levels[level_name] += level_vals",
   needs='a level that is extended after it was made, from a list that is used again', breaks='the extension shows up in other topologies made from the same list',
   demo='''
from trappy.stats.Topology import Topology
cl = [[0, 1], [2, 3]]
a = Topology(clusters=cl); a.add_to_level('cluster', [[4]])
b = Topology(clusters=cl)
assert b.get_level('cluster') == [[0, 1], [2, 3]] and a.get_level('cluster') == [[0, 1], [2, 3], [4]]
'''),
 'C22-a': dict(property='C22', file='trappy/cpu_power.py', old='mask = mask.replace(",", "")', new='mask = mask.split(",")[-1]', needs='a machine with more than 32 CPUs, whose masks have several words', breaks='the CPUs of the other words are not counted',
   demo='''
from trappy.cpu_power import num_cpus_in_mask
assert num_cpus_in_mask('00000003,0000000f') == 6 and num_cpus_in_mask('f') == 4
'''),
 'C22-b': dict(property='C22', file='trappy/cpu_power.py', old='.fillna(method="pad")', new='.fillna(method="pad", limit=50)', needs='a mask whose value does not change for more than 50 rows', breaks='its column has holes',
   demo='''
import pandas as pd
from trappy.cpu_power import pivot_with_labels
d = pd.DataFrame({'cpus': ['f0'] + ['0f'] * 60, 'freq': range(61)})
r = pivot_with_labels(d, 'freq', 'cpus', {'f0': 'A', '0f': 'B'})
assert r['A'].notna().all()
'''),
 'C24-a': dict(property='C24', file='trappy/raw_syscalls.py', old='int(x, 16) for x in args', new='int(x, 16) & 0xffffffffffff for x in args', needs='an argument that uses all 64 bits', breaks='its upper 16 bits are lost',
   demo=FT + '''
t = load('c-5 [000] 1.5: sys_enter: NR 64 (1, ffffffffffffffff, 103, 0, 0, 4)\\n', events=['sys_enter'])
assert int(t.sys_enter.data_frame['arg1'].iloc[0]) == 2**64 - 1
'''),
 'C24-b': dict(property='C24', file='trappy/raw_syscalls.py', old=r'= ([-+]?\d+)"', new=r'= ([-+]?\d{1,12})"', needs='a result of more than twelve digits (an address)', breaks='the result is cut after twelve digits',
   demo=FT + '''
t = load('c-5 [000] 1.5: sys_exit: NR 222 = 140737488351232\\n', events=['sys_exit'])
assert int(t.sys_exit.data_frame['ret'].iloc[0]) == 140737488351232
'''),
 'C27-a': dict(property='C27', file='trappy/sched.py', old='line.replace(" ==> ", " ", 1)', new='" ".join(line.split(" ==> ")[:2])', needs='a switch to a task whose name holds an arrow', breaks='everything after the second arrow is lost',
   demo=FT + '''
t = load('c-5 [000] 1.5: sched_switch: prev_comm=a prev_pid=1 ==> next_comm=x ==> y next_pid=7\\n', events=['sched_switch'])
assert int(t.sched_switch.data_frame['next_pid'].iloc[0]) == 7
'''),
 'C27-b': dict(property='C27', file='trappy/sched.py', old="apply('{:0>8}'.format)", new="apply(lambda cpus: str(cpus).zfill(8)[-8:])", needs='a mask of more than eight digits', breaks='its leading digits are lost',
   demo=FT + '''
t = load('c-5 [000] 1.5: sched_load_avg_sg: cpus=1ffffffff load=4\\nc-5 [000] 1.6: sched_load_avg_sg: cpus=f load=4\\n', events=['sched_load_avg_sg'])
assert list(t.sched_load_avg_sg.data_frame['cpus']) == ['1ffffffff', '0000000f']
'''),
 'C28-a': dict(property='C28', file=F, old="(self.thermal_classes, self.sched_classes, self.dynamic_classes):", new="(self.thermal_classes, self.sched_classes):", needs='a binary trace and a raw event that is neither a thermal nor a scheduler event', breaks='the event is not asked for unformatted',
   demo=STUB + '''
trappy.register_dynamic_ftrace('MyRaw', 'my_raw', parse_raw=True)
open(os.path.join(D, 'x.dat'), 'w').write('c-5 [000] 1.5: my_raw: a=1\\n')
trappy.FTrace.disable_cache = True
trappy.FTrace(os.path.join(D, 'x.dat'))
a = open(os.path.join(D, 'args')).read().split()
assert 'my_raw' in a and 'sched_switch' in a and a[a.index('my_raw') - 1] == '-r', a
'''),
 'C28-b': dict(property='C28', file=F, old="                if SPECIAL_FIELDS_RE.match(line):\n                    # Reached a", new="                if res and SPECIAL_FIELDS_RE.match(line):\n                    # Reached a", needs='a trace without header in whose text a line like a header line follows an event', breaks='text from the body is reported as header',
   demo=FT + '''
t = load('c-5 [000] 1.5: ev_a: a=1\\nversion = 7\\nc-5 [000] 1.6: ev_a: a=1\\n', events=['ev_a'])
assert t._version is None and t._cpus is None
'''),
}
