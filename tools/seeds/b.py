FT = '''
import os, trappy
D = os.environ['DEMO_DIR']
def load(text, cache=False, name='t.txt', **kw):
    p = os.path.join(D, name)
    if text is not None: open(p, 'w').write(text)
    trappy.FTrace.disable_cache = not cache
    kw.setdefault('scope', 'custom'); kw.setdefault('normalize_time', False)
    return trappy.FTrace(p, **kw)
'''
B = 'trappy/base.py'; F = 'trappy/ftrace.py'
GR = '''
import trappy, pandas as pd
from trappy.stats.grammar import Parser
tr = trappy.BareTrace()
tr.add_parsed_event('ev', pd.DataFrame({'a': [1, 2, 3, 4], 'b': [5, 6, 5, 6]}, index=pd.Index([0.0, 1.0, 2.0, 3.0], name='Time')))
'''
AG = '''
import trappy, pandas as pd
from trappy.stats.Trigger import Trigger
from trappy.stats.Topology import Topology
from trappy.stats.Aggregator import MultiTriggerAggregator
tr = trappy.BareTrace()
tr.add_parsed_event('ev', pd.DataFrame({'cpu': [0, 1, 0, 1, 2], 'v': [1, 2, 3, 4, 5]}, index=pd.Index([1.0, 2.0, 3.0, 4.0, 5.0], name='Time')))
tr.add_parsed_event('ew', pd.DataFrame({'cpu': [0, 0, 1], 'v': [7, 8, 9]}, index=pd.Index([1.5, 2.5, 3.5], name='Time')))
'''
SEEDS = {
 'C01-a': dict(property='C01', file=F, old="                trace_class = cls\n                if not cls.fallback:", new="                if trace_class is None:\n                    trace_class = cls\n                if not cls.fallback:",
   needs='a line that names both a fallback event and a more specific event registered after it', breaks='the event lands in the fallback table and the table of its own event stays empty',
   demo=FT + '''
cls = trappy.register_dynamic_ftrace('MyWord', 'my_word')
t = load('c-1 [000] 1.5: tracing_mark_write: my_word: a=1\\nc-1 [000] 1.6: tracing_mark_write: else\\n', scope='all')
assert len(t.my_word.data_frame if hasattr(t, 'my_word') else t.MyWord.data_frame) == 1
assert len(t.tracing_mark_write.data_frame) == 1
'''),
 'C01-b': dict(property='C01', file=B, old="        if not self.time_array:\n", new="        if not any(self.data_array[1:] or self.time_array[1:]):\n",
   needs='an event that occurs exactly once in the trace', breaks='its only row is lost',
   demo=FT + '''
t = load('c-1 [000] 1.5: ev_a: a=1\\nc-1 [000] 1.6: ev_b: a=2\\nc-1 [000] 1.7: ev_b: a=3\\n', events=['ev_a', 'ev_b'])
assert len(t.ev_a.data_frame) == 1 and len(t.ev_b.data_frame) == 2
'''),
 'C02-a': dict(property='C02', file=F, old="timestamp = np.nextafter(timestamp, math.inf)", new="timestamp = np.nextafter(_timestamp, math.inf)",
   needs='at least three events in a row printed with the same time, in different tables', breaks='two of them get the same time',
   demo=FT + '''
t = load(''.join('c-1 [000] 1.5: ev_%s: a=1\\n' % x for x in 'abc'), events=['ev_a', 'ev_b', 'ev_c'])
ts = [getattr(t, 'ev_' + x).data_frame.index[0] for x in 'abc']
assert ts[0] < ts[1] < ts[2], ts
'''),
 'C02-b': dict(property='C02', file=F, old="                if not fields_match.group('us'):\n", new="                if not fields_match.group('us') and _timestamp > 1e9:\n",
   needs='a trace with a nanosecond clock in the first second after boot', breaks='times below one second are a billion times too large',
   demo=FT + '''
t = load('c-1 [000] 500000000: ev_a: a=1\\nc-1 [000] 600000000: ev_a: a=2\\n', events=['ev_a'])
assert list(t.ev_a.data_frame.index) == [0.5, 0.6], list(t.ev_a.data_frame.index)
'''),
 'C03-a': dict(property='C03', file=F, old=r'(?P<comm>.*)-(?P<pid>\d+)', new=r'(?P<comm>[^\[]*)-(?P<pid>\d+)', needs='a task whose name contains an opening bracket', breaks='its lines are not decoded',
   demo=FT + '''
t = load('[kthread]-5 [001] 1.5: ev_a: a=1\\n', events=['ev_a'])
d = t.ev_a.data_frame
assert len(d) == 1 and d['__comm'].iloc[0] == '[kthread]' and d['__pid'].iloc[0] == 5
'''),
 'C03-b': dict(property='C03', file=F, old=r'(?:\s+....)?\s+"', new=r'(?:\s+[^ 0-9]{4})?\s+"', needs='a line whose latency flags have a digit, e.g. a preemption count', breaks='the line is not decoded',
   demo=FT + '''
t = load('ab-5 [001] d.h3 1.5: ev_a: a=1\\nab-5 [001] .... 1.6: ev_a: a=2\\n', events=['ev_a'])
assert list(t.ev_a.data_frame['a']) == [1, 2]
'''),
 'C04-a': dict(property='C04', file=B, old="field.split('=', 1)", new="field.rsplit('=', 1)", needs='a value that contains an equals sign', breaks='the key and the value are cut at the wrong place',
   demo=FT + '''
t = load('ab-5 [001] 1.5: ev_a: a=1 s=x=y\\n', events=['ev_a'])
assert t.ev_a.data_frame['s'].iloc[0] == 'x=y'
'''),
 'C04-b': dict(property='C04', file=B, old="            prev_key = key\n", new="            prev_key = key if value != '' else prev_key\n", needs='a key with nothing after the equals sign followed by a space and a word', breaks='the word goes to the key before',
   demo=FT + '''
t = load('ab-5 [001] 1.5: ev_a: a=q name= foo b=2\\n', events=['ev_a'])
d = t.ev_a.data_frame.iloc[0]
assert d['a'] == 'q' and d['name'] == ' foo' and d['b'] == 2, dict(d)
'''),
 'C05-a': dict(property='C05', file=B, old='r"([A-Za-z0-9_]+)={([^}]+)}"', new='r"([A-Za-z_]+)={([^}]+)}"', needs='an array whose name ends in a digit, with rows of different lengths', breaks='the shorter rows are not padded with zeros',
   demo=FT + '''
t = load('ab-5 [001] 1.5: ev_a: load2={4 5 6}\\nab-5 [001] 1.6: ev_a: load2={7}\\n', events=['ev_a'])
d = t.ev_a.data_frame
assert [list(d['load2%d' % i]) for i in range(3)] == [[4, 7], [5, 0], [6, 0]]
'''),
 'C05-b': dict(property='C05', file=B, old="                if array_len > ret[array_name]:", new="                if array_len > ret[array_name] or array_len > 1:", needs='an array whose longest row is not the last one longer than one', breaks='rows shorter than the longest one are not padded to its length',
   demo=FT + '''
t = load(''.join('ab-5 [001] 1.%d: ev_a: ld={%s}\\n' % (i, a) for i, a in enumerate(['4 5 6', '7 8', '9'])), events=['ev_a'])
d = t.ev_a.data_frame
assert [list(d['ld%d' % i]) for i in range(3)] == [[4, 7, 9], [5, 8, 0], [6, 0, 0]]
'''),
 'C06-a': dict(property='C06', file=F, old="            self.lines += 1\n", new="                    self.lines += 1\n", needs='a trace with lines that belong to no selected event', breaks='the recorded line numbers are not those of the file',
   demo=FT + '''
t = load('c-1 [000] 1.5: ev_a: a=1\\nc-1 [000] 1.6: other: a=1\\nc-1 [000] 1.7: ev_a: a=2\\n', events=['ev_a'])
assert list(t.ev_a.data_frame['__line']) == [0, 2], list(t.ev_a.data_frame['__line'])
'''),
 'C07-a': dict(property='C07', file=F, old="        if len(trace_class.data_frame) < 1:", new="        if len(trace_class.data_frame) < 2:", needs='an event that occurs once, outside the window', breaks='the event outside the window is kept',
   demo=FT + '''
t = load('c-1 [000] 1.5: ev_a: a=1\\nc-1 [000] 1.6: ev_b: a=1\\nc-1 [000] 1.7: ev_b: a=2\\n', events=['ev_a', 'ev_b'], abs_window=(1.55, 1.65))
assert len(t.ev_a.data_frame) == 0 and list(t.ev_b.data_frame['a']) == [1]
'''),
 'C07-b': dict(property='C07', file=F, old="        for trace_class in self.trace_classes:\n            self._windowify_class(", new="        for trace_class in self.trace_classes:\n            if trace_class.cached and self.abs_window[1] is None and not self.window[0]:\n                continue\n            self._windowify_class(", needs='a second opening of the trace, from its cache, with a window that has only an end or only an absolute start', breaks='the window is ignored for tables read from the cache',
   demo=FT + '''
X = ''.join('c-1 [000] 1.%d: ev_a: a=%d\\n' % (i, i) for i in range(1, 6))
assert len(load(X, cache=True, events=['ev_a']).ev_a.data_frame) == 5
t = load(None, cache=True, events=['ev_a'], window=(0, 0.15))
assert list(t.ev_a.data_frame['a']) == [1, 2], t.ev_a.data_frame
'''),
 'C08-a': dict(property='C08', file=B, old="        if basetime and not self.data_frame.empty:", new="        if basetime and len(self.data_frame) > 1:", needs='an event that occurs once in the window', breaks='its time is not shifted',
   demo=FT + '''
t = load('c-1 [000] 1.5: ev_a: a=1\\nc-1 [000] 1.75: ev_b: a=1\\nc-1 [000] 2.5: ev_b: a=2\\n', events=['ev_a', 'ev_b'], normalize_time=True)
assert list(t.ev_a.data_frame.index) == [0] and list(t.ev_b.data_frame.index) == [.25, 1.0]
'''),
 'C08-b': dict(property='C08', file='trappy/bare_trace.py', old="        return max(max_durations) - min(min_durations)", new="        return max_durations[-1] - min(min_durations)", needs='a trace whose last table is not the one with the last event', breaks='the duration is too short',
   demo=FT + '''
t = load('c-1 [000] 1.5: ev_a: a=1\\nc-1 [000] 1.75: ev_b: a=1\\nc-1 [000] 2.5: ev_a: a=2\\n', events=['ev_a', 'ev_b'])
assert t.get_duration() == 1.0
'''),
 'C09-a': dict(property='C09', file=F, old='        metadata["basetime"] = self.basetime\n', new='        metadata["basetime"] = max(self.basetime, self.max_window[0])\n', needs='the first opening, which writes the cache, uses a window with a start', breaks='later openings use the start of that window as base time',
   demo=FT + '''
X = ''.join('c-1 [000] 1.%d: ev_a: a=%d\\n' % (i, i) for i in range(1, 6))
load(X, cache=True, events=['ev_a'], window=(0.25, None))
t = load(None, cache=True, events=['ev_a'], normalize_time=True)
assert t.basetime == 1.1 and t.ev_a.data_frame.index[0] == 0, (t.basetime, t.ev_a.data_frame)
'''),
 'C09-b': dict(property='C09', file=F, old=["hashlib.md5(f.read())", "            open(self.trace_path, 'rb').read()\n"], new=["hashlib.md5(f.read(1 << 16))", "            open(self.trace_path, 'rb').read(1 << 16)\n"], needs='a trace file of more than 64 KiB that changes only behind its first 64 KiB', breaks='the stale cache is used',
   demo=FT + '''
X = ''.join('c-1 [000] %d.5: ev_a: a=%d\\n' % (i, i) for i in range(1, 3000))
load(X, cache=True, events=['ev_a'])
t = load(X.replace('a=2999', 'a=7'), cache=True, events=['ev_a'])
assert t.ev_a.data_frame['a'].iloc[-1] == 7
'''),
 'C10-a': dict(property='C10', file=F, old="        except OSError as err:\n            warnings.warn(\n", new="        except (PermissionError, FileNotFoundError) as err:\n            warnings.warn(\n", needs='the disk fills up while the cache is being written', breaks='the trace cannot be opened any more',
   demo=FT + '''
import errno
from trappy.base import Base
def full(self, fname): open(fname, 'w').close(); raise OSError(errno.ENOSPC, 'No space left on device')
orig = Base.write_csv; Base.write_csv = full
X = 'c-1 [000] 1.5: ev_a: a=1\\n'
t = load(X, cache=True, events=['ev_a']); assert list(t.ev_a.data_frame['a']) == [1]
Base.write_csv = orig
t = load(None, cache=True, events=['ev_a']); assert list(t.ev_a.data_frame['a']) == [1]
'''),
 'C10-b': dict(property='C10', file=F, old=["            shutil.rmtree(cache_path)\n            return\n", "        if os.path.exists(cache_path):\n            shutil.rmtree(cache_path)\n        os.mkdir(cache_path)\n"], new=["            return\n", "        if not os.path.exists(cache_path):\n            os.mkdir(cache_path)\n"],
   needs='the trace changes, and the next opening is interrupted between writing the description of the new cache and the last of its tables', breaks='the old tables are taken for those of the new trace',
   demo=FT + '''
from trappy.base import Base
X = 'c-1 [000] 1.5: ev_a: a=1\\n'
load(X, cache=True, events=['ev_a'])
def stop(self, fname): raise KeyboardInterrupt
orig = Base.write_csv; Base.write_csv = stop
try: load(X.replace('a=1', 'a=2'), cache=True, events=['ev_a'])
except KeyboardInterrupt: pass
Base.write_csv = orig
t = load(None, cache=True, events=['ev_a']); assert list(t.ev_a.data_frame['a']) == [2]
'''),
 'C11-a': dict(property='C11', file=F, old="            if cls1.unique_word in cls2.unique_word or \\\n                cls2.unique_word in cls1.unique_word:", new="            if cls1.unique_word in cls2.unique_word:", needs='two event words, the longer one selected first, containing one another', breaks='the ambiguous pair is accepted',
   demo=FT + '''
for ev in (['foo_bar', 'bar'], ['bar', 'foo_bar']):
    try: load('c-1 [000] 1.5: foo_bar: a=1\\n', events=ev)
    except RuntimeError: continue
    raise SystemExit('accepted %s' % ev)
'''),
 'C11-b': dict(property='C11', file=F, old="                   (event_name == cls.name):\n                    self.class_definitions[cls.name] = cls\n", new="                   (event_name == cls.name):\n                    self.class_definitions[event_name.rstrip(':')] = cls\n", needs='an event asked for by its word in the trace where trappy knows it under another name', breaks='the trace has no table under the name of the event, or has two parsers for it',
   demo=FT + '''
t = load('c-1 [000] 1.5: cpu_frequency: state=1 cpu_id=0\\n', events=['cpu_frequency'])
assert list(t.class_definitions) == [c.name for c in t.class_definitions.values()], t.class_definitions
assert len(t.cpu_frequency.data_frame) == 1
cls = trappy.register_dynamic_ftrace('Nm', 'some_word')
t = load('c-1 [000] 1.5: some_word: state=1\\n', events=['some_word'], scope='custom')
assert list(t.class_definitions) == [cls.name], t.class_definitions
'''),
 'C14-a': dict(property='C14', file='trappy/stats/grammar.py', old="    for opr, val in iterate_binary_ops(params[1:]):", new="    for opr, val in list(iterate_binary_ops(params[1:]))[:8]:", needs='more than eight operations of one precedence level in a row', breaks='the rest of the expression is ignored',
   demo=GR + '''
assert Parser(tr).solve(' + '.join(['1'] * 12)) == 12
'''),
 'C14-b': dict(property='C14', file='trappy/stats/grammar.py', old="(EXPONENTIATION_OPS, 2, opAssoc.LEFT,", new="(EXPONENTIATION_OPS, 2, opAssoc.RIGHT,", needs='two powers in a row', breaks='they are grouped from the right',
   demo=GR + '''
assert Parser(tr).solve('2 ** 3 ** 2') == 64
'''),
 'C15-a': dict(property='C15', file='trappy/stats/grammar.py', old="        elif self._window[1] is None:", new="        elif not self._window[1]:", needs='a window that ends at time zero', breaks='the window has no end',
   demo=GR + '''
assert list(Parser(tr, window=(0, 0)).solve('ev:a').dropna().values.ravel()) == [1]
'''),
 'C15-b': dict(property='C15', file='trappy/stats/grammar.py', old="                except KeyError:\n                    continue\n", new="                except KeyError:\n                    break\n", needs='a filter on a column that the event does not have, given before another filter', breaks='the other filter is not applied',
   demo=GR + '''
assert list(Parser(tr, filters={'zz': 1, 'b': 5}).solve('ev:a').dropna().values.ravel()) == [1, 3]
'''),
 'C16-a': dict(property='C16', file='trappy/stats/Trigger.py', old="                mask = mask & (data_frame[key].apply(value))", new="                mask = data_frame[key].apply(value)", needs='a function filter given after another filter', breaks='the filters before the function are dropped',
   demo=AG + '''
g = Trigger(tr, tr.class_definitions['ev'], {'v': [1, 2], 'cpu': lambda c: c < 2}, 'v', 'cpu').generate(0)
assert list(g) == [1], g
'''),
 'C16-b': dict(property='C16', file='trappy/stats/Trigger.py', old="            return pd.Series(self._value, index=data_frame.index)", new="            return pd.Series(self._value or 1, index=data_frame.index)", needs='a trigger whose value is zero', breaks='the trigger yields ones',
   demo=AG + '''
g = Trigger(tr, tr.class_definitions['ev'], {}, 0, 'cpu').generate(0)
assert list(g) == [0, 0], g
'''),
 'C17-a': dict(property='C17', file='trappy/stats/Aggregator.py', old="                    node_res = self._aggfunc(self._result[node], **kwargs)", new="                    node_res = self._aggfunc(self._result[node])", needs='an aggregation function with keyword arguments on a group of several nodes', breaks='only the first node of a group sees the arguments',
   demo=AG + '''
a = MultiTriggerAggregator([Trigger(tr, tr.class_definitions['ev'], {}, 'v', 'cpu')], Topology(clusters=[[0, 1], [2]]), lambda s, k=1: s.sum() * k)
assert a.aggregate(level='cluster', k=3) == [30, 15]
'''),
 'C17-b': dict(property='C17', file='trappy/stats/Aggregator.py', old="        if pivot not in self._result:", new="        if pivot not in self._result or len(series) > 1:", needs='two triggers, the second with several rows for one node', breaks='what the first trigger gave for that node is lost',
   demo=AG + '''
a = MultiTriggerAggregator([Trigger(tr, tr.class_definitions[e], {}, 'v', 'cpu') for e in ('ev', 'ew')], Topology(clusters=[[0, 1], [2]]), lambda s: s.sum())
assert a.aggregate(level='cluster') == [1 + 3 + 7 + 8 + 2 + 4 + 9, 5]
'''),
 'C18-a': dict(property='C18', file='trappy/plotter/Constraint.py', old="            criterion = values.map(lambda x: True)", new="            criterion = values.map(lambda x: x == x)", needs='a column with missing values', breaks='the rows with missing values are dropped from the plotted data',
   demo='''
import pandas as pd
from trappy.plotter.Constraint import ConstraintManager
d = pd.DataFrame({'c': [1.0, None, 3.0], 'p': [0, 0, 1]}, index=[0.1, 0.2, 0.3])
r = list(ConstraintManager(d, 'c', None, 'p', {}))[0].result
assert {k: list(v.index) for k, v in r.items()} == {0: [0.1, 0.2], 1: [0.3]}, r
'''),
 'C18-b': dict(property='C18', file='trappy/plotter/Constraint.py', old="            if len(val_series) != 0:", new="            if val_series.any():", needs='a pivot value whose rows are all zero', breaks='the pivot value is left out',
   demo='''
import pandas as pd
from trappy.plotter.Constraint import ConstraintManager
d = pd.DataFrame({'c': [0, 0, 3], 'p': [0, 0, 1]}, index=[0.1, 0.2, 0.3])
r = list(ConstraintManager(d, 'c', None, 'p', {}))[0].result
assert {k: list(v) for k, v in r.items()} == {0: [0, 0], 1: [3]}, r
'''),
 'C22-a': dict(property='C22', file='trappy/cpu_power.py', old="    value = int(mask, 16)\n", new="    value = int(mask, 16) & 0xffffffff\n", needs='a mask with cpus above 31', breaks='they are not counted',
   demo='''
from trappy.cpu_power import num_cpus_in_mask
assert num_cpus_in_mask('00000001,0000000f') == 5
'''),
 'C22-b': dict(property='C22', file='trappy/cpu_power.py', old="data = dfr[dfr[new_col_name] == col][data_col_name]", new="data = dfr[dfr[new_col_name] <= col][data_col_name]", needs='two masks that are interleaved in the table', breaks='a column takes the rows of the other masks',
   demo='''
import pandas as pd
from trappy.cpu_power import pivot_with_labels
d = pd.DataFrame({'cpus': ['1', '2', '1', '2'], 'freq': [1, 3, 2, 6]}, index=[0.5, 1.5, 2.5, 3.5])
r = pivot_with_labels(d, 'freq', 'cpus', {'1': 'A', '2': 'B'})
assert list(r['B'].dropna()) == [3, 3, 6] and list(r['A']) == [1, 1, 2, 2], r
'''),
 'C23-a': dict(property='C23', file='trappy/systrace.py', old='        return lambda x: not x.endswith("</script>\\n")', new='        return lambda x: "</script>" not in x', needs='an event whose text contains </script>', breaks='the rest of the trace is dropped',
   demo='''
import os, trappy
p = os.path.join(os.environ['DEMO_DIR'], 't.html')
open(p, 'w').write('<!-- BEGIN TRACE -->\\n  <script class="trace-data" type="application/text">\\n ab-1 [000] 1.5: tracing_mark_write: B|1|f </script> g\\n ab-1 [000] 1.6: tracing_mark_write: E|1\\n</script>\\n')
trappy.SysTrace.disable_cache = True
assert len(trappy.SysTrace(p).tracing_mark_write.data_frame) == 2
'''),
 'C23-b': dict(property='C23', file='trappy/systrace.py', old="                          'func' : match.group('func' ),", new="                          'func' : match.group('func' ) or None,", needs='a user event with an empty name', breaks='the name is missing instead of empty',
   demo='''
import os, trappy
p = os.path.join(os.environ['DEMO_DIR'], 't.html')
open(p, 'w').write('<!-- BEGIN TRACE -->\\n  <script class="trace-data" type="application/text">\\n ab-1 [000] 1.5: tracing_mark_write: B|1|\\n ab-1 [000] 1.6: tracing_mark_write: C|1|x|5\\n</script>\\n')
trappy.SysTrace.disable_cache = True
assert list(trappy.SysTrace(p).tracing_mark_write.data_frame['func']) == ['', 'x']
'''),
 'C26-a': dict(property='C26', file='trappy/stats/Correlator.py', old="            if math.isnan(corr):\n                continue\n", new="            if math.isnan(corr):\n                break\n", needs='a group without a correlation value before a group that has one', breaks='the groups after it do not count',
   demo='''
import pandas as pd, math
from trappy.stats.Correlator import Correlator
class I(object):
    def get_uniform(self, delta): return None
class A(object):
    indexer = None
    def __init__(s, *series): s.series = [pd.Series(x) for x in series]
    def aggregate(s, level=None, **kw): return s.series if level == 'g' else [s.series[-1]]
c = object.__new__(Correlator); c._first_agg = A([0., 0, 0], [0., 1, 1]); c._second_agg = A([0., 0, 0], [0., 1, 1]); c._agg_kwargs = {}; c._corrfunc = None; c._shift = 0
out, total = c.correlate('g', resample=False)
assert math.isnan(out[0]) and abs(out[1] - 1) < 1e-9 and abs(total - 1) < 1e-9, (out, total)
'''),
 'C26-b': dict(property='C26', file='trappy/stats/Correlator.py', old="    if not len(p_x) or not len(p_y):\n        return s_x, s_y, 0", new="    if not len(p_x) or not len(p_y):\n        return s_x, s_y, len(p_x) - len(p_y)", needs='one signal that is never different from zero and one that is', breaks='a shift is reported although nothing is aligned',
   demo='''
import pandas as pd
from trappy.stats.Correlator import align
x, y, s = align(pd.Series([0., 1, 1]), pd.Series([0., 0, 0]))
assert s == 0 and list(x) == [0, 1, 1] and list(y) == [0, 0, 0]
'''),
}
