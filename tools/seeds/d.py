import runpy, os
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b.py'))
FT, B, F, AG = _b['FT'], _b['B'], _b['F'], _b['AG']
SEEDS = {
 'C01-c': dict(property='C01', file=F, old="            if unique_word in line:\n", new="            if unique_word in line[line.find('['):]:\n",
   needs='a keyword that occurs only in the task name of a line', breaks='the line adds no row',
   demo=FT + '''
t = load('ev_a:x-5 [000] 1.5: other: a=1\\nc-5 [000] 1.6: ev_a: a=2\\n', events=['ev_a'])
assert len(t.ev_a.data_frame) == 2
'''),
 'C02-c': dict(property='C02', file=F, old="                if not self.basetime:\n", new="                if self.lines == 0:\n",
   needs='a systrace file, whose section starts with a header line', breaks='the base time stays 0',
   demo='''
import os, trappy
p = os.path.join(os.environ['DEMO_DIR'], 't.html')
open(p, 'w').write('<!-- BEGIN TRACE -->\\n  <script class="trace-data" type="application/text">\\n# tracer\\nab-1 [000] 1.5: sched_wakeup: a=1\\nab-1 [000] 2.5: sched_wakeup: a=1\\n</script>\\n')
trappy.SysTrace.disable_cache = True
assert trappy.SysTrace(p, normalize_time=False).basetime == 1.5
'''),
 'C03-b': dict(property='C03', file=F, old=r'\[(?P<cpu>\d+)\]', new=r'\[(?P<cpu>\d{3})\]', needs='a CPU number of four digits', breaks='the event is lost',
   demo=FT + '''
t = load('c-5 [1023] 1.5: ev_a: a=1\\nc-5 [000] 1.6: ev_a: a=2\\n', events=['ev_a'])
assert list(t.ev_a.data_frame['__cpu']) == [1023, 0]
'''),
 'C04-a': dict(property='C04', file=B, old="            data_dict[key] = value\n", new="            data_dict.setdefault(key, value)\n", needs='a payload that prints a key twice', breaks='the first value is kept',
   demo=FT + '''
t = load('c-5 [000] 1.5: ev_a: a=1 b=2 a=3\\n', events=['ev_a'])
assert list(t.ev_a.data_frame['a']) == [3]
'''),
 'C06-a': dict(property='C06', file=B, old='            data_dict = {"__comm": comm, "__pid": pid, "__cpu": cpu, "__line": line}\n            data_dict.update(self.generate_data_dict(data_str))\n', new='            data_dict = dict(self.generate_data_dict(data_str))\n            data_dict.update({"__comm": comm, "__pid": pid, "__cpu": cpu, "__line": line})\n',
   needs='a payload with a field that is named like a metadata column', breaks='the field is lost',
   demo=FT + '''
t = load('c-5 [000] 1.5: ev_a: a=1 __pid=7\\n', events=['ev_a'])
assert list(t.ev_a.data_frame['__pid']) == [7]
'''),
 'C07-c': dict(property='C07', file=F, old="max_window[1] = min(self.window[1] + self.basetime, self.abs_window[1])", new="max_window[1] = min(self.window[1], self.abs_window[1])", needs='upper bounds in both windows and a trace that does not start at 0', breaks='events inside both windows are dropped',
   demo=FT + '''
t = load('c-5 [000] 10.5: ev_a: a=1\\nc-5 [000] 11.5: ev_a: a=2\\nc-5 [000] 14.5: ev_a: a=2\\n', events=['ev_a'], window=(0, 2), abs_window=(0, 14))
assert list(t.ev_a.data_frame.index) == [10.5, 11.5]
'''),
 'C08-a': dict(property='C08', file=B, old='self.data_frame["Time"] = self.data_frame["Time"] - basetime', new='self.data_frame["Time"] = (self.data_frame["Time"] - basetime).round(9)', needs='times with more than nine decimals, or equal printed times', breaks='different times become equal',
   demo=FT + '''
t = load('c-5 [000] 10.5: ev_a: a=1\\nc-5 [000] 11.5: ev_a: a=2\\nc-5 [000] 11.5: ev_a: a=3\\n', events=['ev_a'], normalize_time=True)
i = list(t.ev_a.data_frame.index)
assert i[0] == 0 and i[1] == 1.0 and i[2] > i[1], i
'''),
 'C08-b': dict(property='C08', file='trappy/bare_trace.py', old="        return max(max_durations) - min(min_durations)", new="        return max(max_durations) - min(d for d in min_durations if d >= self.basetime)", needs='normalized times', breaks='the duration differs with and without normalization',
   demo=FT + '''
x = 'c-5 [000] 10.0: ev_a: a=1\\nc-5 [000] 11.5: ev_a: a=2\\nc-5 [000] 25.5: ev_b: a=3\\nc-5 [000] 40: ev_b: a=3\\n'
T = lambda n: load('c-5 [000] 10.5: ev_a: a=1\\nc-5 [000] 12.5: ev_a: a=2\\nc-5 [000] 25.5: ev_b: a=3\\nc-5 [000] 26.5: ev_b: a=3\\n', events=['ev_a', 'ev_b'], normalize_time=n)
assert T(True).get_duration() == T(False).get_duration() == 16.0
'''),
 'C09-c': dict(property='C09', file=B, old="            index_col=0,\n", new="            index_col=0,\n            na_values=['-'],\n", needs='a field that prints a dash', breaks='the field is missing after loading from the cache',
   demo=FT + '''
x = 'c-5 [000] 10.5: ev_a: a=- b=1\\n'
a = load(x, cache=True, events=['ev_a']).ev_a.data_frame; b = load(None, cache=True, events=['ev_a']).ev_a.data_frame
assert list(a['a']) == ['-'] and list(b['a']) == ['-'], list(b['a'])
'''),
 'C11-b': dict(property='C11', file=F, old='(event_name + ":" == cls.unique_word) or', new='(cls.unique_word.startswith(event_name + "_")) or', needs='an event requested by its keyword without the colon, or an unknown event whose name begins another keyword', breaks='another event is selected instead',
   demo=FT + '''
t = load('c-5 [000] 1.5: sched: a=1\\nc-5 [000] 1.6: sched_switch: a=2\\n', events=['sched'])
assert hasattr(t, 'sched') and len(t.sched.data_frame) == 1
'''),
 'C16-c': dict(property='C16', file='trappy/stats/Trigger.py', old="data_frame[data_frame[self._pivot] == pivot_val]", new="data_frame[data_frame[self._pivot].astype(str) == str(pivot_val)]", needs='a pivot column with missing values, which is a column of floats', breaks='no row matches',
   demo=AG + '''
tr.add_parsed_event('ex', pd.DataFrame({'cpu': [0, None, 1], 'v': [7, 8, 9]}, index=pd.Index([1.5, 2.5, 3.5], name='Time')))
assert list(Trigger(tr, tr.class_definitions['ex'], {}, 'v', 'cpu').generate(1)) == [9]
'''),
 'C23-b': dict(property='C23', file='trappy/systrace.py', old=r"(\|(?P<data>.*))?", new=r"(\|(?P<data>[^|]*))?", needs='a marker whose data has a bar', breaks='the marker is not decoded',
   demo='''
import os, trappy
p = os.path.join(os.environ['DEMO_DIR'], 't.html')
open(p, 'w').write('<!-- BEGIN TRACE -->\\n  <script class="trace-data" type="application/text">\\n ab-1 [000] 1.5: tracing_mark_write: C|1|f|a|b\\n</script>\\n')
trappy.SysTrace.disable_cache = True
assert list(trappy.SysTrace(p).tracing_mark_write.data_frame['data']) == ['a|b']
'''),
}
