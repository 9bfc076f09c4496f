From e67cadf02cdbb4aa3db88b80d845ebac060646bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 01/23] fix: space duplicated timestamps evenly

handle_duplicate_index() doubled the step for each further duplicate, so
with three or more duplicates an adjusted time could go past the next
timestamp.
---
 trappy/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/utils.py b/trappy/utils.py
index 0bc6302..ea359e5 100644
--- a/trappy/utils.py
+++ b/trappy/utils.py
@@ -102,11 +102,12 @@ def handle_duplicate_index(data,
         if delta > max_delta:
             delta = max_delta
 
-        # Add a delta to the others
+        # Add an increasing multiple of delta to the others
+        step = delta
         dup_index_left += 1
         while dup_index_left <= dup_index_right:
             new_index[dup_index_left] += delta
-            delta += delta
+            delta += step
             dup_index_left += 1
 
     return data.reindex(new_index)
-- 
2.43.0


From 9869aaf7b7b41e0e64d8907ec7bb69615035dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 02/23] fix: return the column named by the trigger value

Trigger.generate() indexed the data frame with the value of the last
filter instead of the column the trigger was created with.
---
 trappy/stats/Trigger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 586a76c..05f3e03 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -105,7 +105,7 @@ class Trigger(object):
         data_frame = data_frame[mask]
 
         if isinstance(self._value, str):
-            return data_frame[value]
+            return data_frame[self._value]
         else:
             return pd.Series(self._value, index=data_frame.index)
 
-- 
2.43.0


From 69230b0cd86c5cb9537766a711b914dd0dbd1284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 03/23] fix: a list filter accepts any of the values in the
 list

apply_filter_kv() required the column to be equal to all the values of
the list at once.
---
 trappy/stats/Trigger.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 05f3e03..22bd71f 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -130,6 +130,4 @@ def apply_filter_kv(key, value, data_frame, mask):
     if key not in data_frame.columns:
         return mask
     else:
-        for val in value:
-            mask = mask & (data_frame[key] == val)
-        return mask
+        return mask & data_frame[key].isin(value)
-- 
2.43.0


From 69d8de28638b47bdf13e0418792e3283ef9965c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 04/23] fix: don't modify the base series while aggregating

Without an aggfunc (or with one that returns its argument)
MultiTriggerAggregator.aggregate() accumulated the result in the series of
the first node of the group, corrupting all later aggregations.
---
 trappy/stats/Aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Aggregator.py b/trappy/stats/Aggregator.py
index 715d47c..ceacb27 100644
--- a/trappy/stats/Aggregator.py
+++ b/trappy/stats/Aggregator.py
@@ -151,7 +151,7 @@ class MultiTriggerAggregator(AbstractAggregator):
                 else:
                     node_res = self._result[node]
 
-                level_res += node_res
+                level_res = level_res + node_res
 
             result.append(level_res)
 
-- 
2.43.0


From ef201578e19d62792a0be3a3ac4d09583da4fcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 05/23] fix: generate an empty series when no row has the pivot
 value

With no filter, the mask was an empty list, which pandas takes as a
selection of no columns, so a trigger on a column raised KeyError.
---
 trappy/stats/Trigger.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 22bd71f..2d497a9 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -27,7 +27,6 @@ from __future__ import unicode_literals
 from __future__ import division
 from __future__ import print_function
 
-from builtins import range
 from builtins import object
 import types
 from trappy.utils import listify
@@ -94,7 +93,7 @@ class Trigger(object):
         data_frame = trappy_event.data_frame
         data_frame = data_frame[data_frame[self._pivot] == pivot_val]
 
-        mask = [True for _ in range(len(data_frame))]
+        mask = pd.Series(True, index=data_frame.index)
 
         for key, value in self._filters.items():
             if hasattr(value, "__call__"):
-- 
2.43.0


From 653fc0f7ea473895f442303cb0f141d8685c6e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 06/23] fix: intersect the windows' upper bounds

_calc_max_window() is meant to compute the intersection of the relative
and the absolute window, but took the latest of the two ends; and an end
of 0 was ignored by _windowify_class().
---
 trappy/ftrace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 1d26fb5..2187bc1 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -163,7 +163,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         max_window[0] = max(self.window[0] + self.basetime, self.abs_window[0])
 
         if (self.window[1] is not None) and (self.abs_window[1] is not None):
-            max_window[1] = max(self.window[1] + self.basetime, self.abs_window[1])
+            max_window[1] = min(self.window[1] + self.basetime, self.abs_window[1])
         elif self.window[1] is not None:
             max_window[1] = self.window[1] + self.basetime
         elif self.abs_window[1] is not None:
@@ -181,7 +181,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         # Ensure it's sorted for good measure.
         trace_class.data_frame.sort_index(inplace=True)
 
-        if window[1]:
+        if window[1] is not None:
             trace_class.data_frame = trace_class.data_frame[
                 window[0]:window[1]]
         elif window[0]:
-- 
2.43.0


From c9dfbd6d7306ccaf53b6adf4bf83b629e2af10aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 07/23] fix: drop the cache when its metadata is missing or
 unreadable

Opening a trace failed if the creation of its cache had been interrupted
before metadata.json was complete.
---
 trappy/ftrace.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 2187bc1..164ac44 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -276,7 +276,11 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         if not os.path.exists(cache_path):
             return
 
-        metadata = self._get_cache_metadata()
+        try:
+            metadata = dict(self._get_cache_metadata())
+        except (IOError, ValueError, TypeError):
+            # Missing or corrupted (e.g. its creation was interrupted)
+            metadata = {}
 
         if not self._is_cache_valid(metadata):
             shutil.rmtree(cache_path)
@@ -824,6 +828,13 @@ class FTrace(GenericFTrace):
         if self.read_from_dat:
             os.remove(self.file_to_parse)
 
+    def _is_cache_valid(self, cache_metadata):
+        if "ftrace" not in cache_metadata:
+            warnings.warn("Cache metadata is erroneous, invalidating cache")
+            return False
+
+        return super(FTrace, self)._is_cache_valid(cache_metadata)
+
     def _load_metadata_from_cache(self, metadata):
         super(FTrace, self)._load_metadata_from_cache(metadata)
 
-- 
2.43.0


From 4a06af81bc61871bc98547af8c8200dc300162b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 08/23] fix: don't leave truncated files in the cache

An interrupted write left a truncated CSV file that was later read as if
it was complete.
---
 trappy/ftrace.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 164ac44..92262ac 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -254,7 +254,11 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                     continue
 
                 csv_file = self._get_csv_path(trace_class)
-                trace_class.write_csv(csv_file)
+
+                # Don't leave a truncated file behind if we get interrupted
+                tmp_file = csv_file + '.tmp'
+                trace_class.write_csv(tmp_file)
+                os.replace(tmp_file, csv_file)
         except OSError as err:
             warnings.warn(
                 "TRAPpy: Cache not created due to OS error: {0}".format(err))
-- 
2.43.0


From b7248890840ff2992d42db7ce56bd8b8ea237353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 09/23] fix: pad arrays even if the first line has none

The scan for the lengths of the arrays stopped at the first line if that
line had no array, so the rows of the later ones were not padded with
zeros.
---
 trappy/base.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index 40a6f9e..ecf6e90 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -157,10 +157,6 @@ class Base(object):
 
                 line = line[match.end():]
 
-            # Stop scanning if the trace doesn't have arrays
-            if len(ret) == 0:
-                break
-
         return ret
 
     def append_data(self, time, comm, pid, cpu, line, data):
-- 
2.43.0


From b7263e5a624cff25a41fffbd0fcc0b047ef251ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 10/23] fix: drop the unfinished interval of the task that was
 running

When a pid was switched in twice, get_trace_event_data() dropped the last
interval of the incoming task's name, which failed if the task had
changed its name in between.
---
 trappy/plotter/Utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/Utils.py b/trappy/plotter/Utils.py
index 1d116e6..1ef38a2 100644
--- a/trappy/plotter/Utils.py
+++ b/trappy/plotter/Utils.py
@@ -83,8 +83,8 @@ def get_trace_event_data(trace, execnames=None, pids=None):
             warn_str = "Corrupted trace (dropped events) for PID {} at time {}". \
                        format(next_pid, index)
             warnings.warn(warn_str)
-            del pmap[next_pid]
-            del data[name][-1]
+            old_name = pmap.pop(next_pid)
+            del data[old_name][-1]
 
         if next_pid != 0 and not next_comm.startswith("migration"):
 
-- 
2.43.0


From 1e550955f5201f32fe916632161c40781fd28402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 11/23] fix: level_span() of the level "all" is one group

level_span() returned the number of nodes for the level "all", which has
a single group according to get_level().
---
 trappy/stats/Topology.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/trappy/stats/Topology.py b/trappy/stats/Topology.py
index 82877a3..fe7925f 100644
--- a/trappy/stats/Topology.py
+++ b/trappy/stats/Topology.py
@@ -167,10 +167,7 @@ class Topology(object):
         :param level: The name of the level
         :type level_name: str
         """
-        if level == "all":
-            return len(self._nodes)
-        else:
-            return len(self._levels[level])
+        return len(self.get_level(level))
 
     def has_level(self, level):
         """Returns true if level is present
-- 
2.43.0


From f080c4247b762f1d8dffd13008de61a8498e8ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 12/23] fix: allow calling a function without arguments in
 expressions

The grammar accepts an empty argument list but evaluating it raised
IndexError.
---
 trappy/stats/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 86c7144..bdeb37b 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -526,7 +526,8 @@ class Parser(object):
             func = self._pvars[func_name]
         else:
             func = str_to_attr(params[0])
-        return func(*params[1])
+        args = params[1] if len(params) > 1 else []
+        return func(*args)
 
     def _get_data_frame(self, cls):
         """Get the data frame from the BareTrace object, applying the window
-- 
2.43.0


From 1af8eba87ab9aedca777dd795a44e14ec8f61e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 13/23] fix: remove empty arrays at the end of the line too

An empty array that was the last field of the line was kept as a string.
---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 92262ac..b0152ae 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -445,7 +445,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
                     # Remove empty arrays from the trace
                     if "={}" in data_str:
-                        data_str = re.sub(r"[A-Za-z0-9_]+=\{\} ", r"", data_str)
+                        data_str = re.sub(r"[A-Za-z0-9_]+=\{\}( |$)", r"", data_str)
 
                     trace_class.append_data(timestamp, comm, pid, cpu, self.lines, data_str)
 
-- 
2.43.0


From cbe2f46f80d7b181c78b9b9f70fb503b301feb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 14/23] fix: don't reject values of a field with an empty name

A word without '=' after a field such as "=foo" was taken for the start
of the line and raised TrappyParseError.
---
 trappy/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/base.py b/trappy/base.py
index ecf6e90..98f72a2 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -207,7 +207,7 @@ class Base(object):
         prev_key = None
         for field in data_str.split():
             if "=" not in field:
-                if not prev_key:
+                if prev_key is None:
                     if 'FAILED TO PARSE' in data_str:
                         warnings.warn(
                             'trace-cmd failed to parse the "{}" event. You may '
-- 
2.43.0


From 470edfdc5cd6afefa5dbd551b4433d1a7e268468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 15/23] fix: inline the last character of imported scripts

The last line of an imported file lost its last character if the file
doesn't end in a newline.
---
 trappy/nbexport/exporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/nbexport/exporter.py b/trappy/nbexport/exporter.py
index a55cc2d..abcc60e 100644
--- a/trappy/nbexport/exporter.py
+++ b/trappy/nbexport/exporter.py
@@ -82,7 +82,7 @@ class TrappyPlotterPreprocessor(Preprocessor):
                     continue
 
                 with open(import_file) as fin:
-                    final_lines.extend([l[:-1] for l in fin.readlines()])
+                    final_lines.extend([l.rstrip('\n') for l in fin.readlines()])
 
                 self.inlined_files.append(import_file)
                 continue
-- 
2.43.0


From 7d3f3d13f579fa16e7410d2d211af47b7849b49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 16/23] fix: keep the last character of sysfs files without a
 final newline

---
 trappy/wa/sysfs_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/wa/sysfs_extractor.py b/trappy/wa/sysfs_extractor.py
index 1401594..43f27ed 100644
--- a/trappy/wa/sysfs_extractor.py
+++ b/trappy/wa/sysfs_extractor.py
@@ -68,7 +68,8 @@ class SysfsExtractor(object):
             with open(property_path) as fin:
                 contents = fin.read()
                 # Trim trailing newline
-                contents = contents[:-1]
+                if contents.endswith("\n"):
+                    contents = contents[:-1]
 
                 try:
                     ret[property_name] = int(contents)
-- 
2.43.0


From c41edbe062d60a38daa419d11009cf610d8f3de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 17/23] fix: keep the super-indexed data sorted by time

pd.concat() doesn't sort the joined index, so values were padded from
later rows to earlier ones when events with different times (or several
pivot values) were combined.
---
 trappy/stats/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index bdeb37b..9e5c6dc 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -433,7 +433,7 @@ class Parser(object):
                         method=self._method,
                         limit=self._limit)
 
-            return pd.concat(data, axis=1).swaplevel(0, 1, axis=1)
+            return pd.concat(data, axis=1, sort=True).swaplevel(0, 1, axis=1)
 
         if len(self._agg_df):
             data_frame = data_frame.reindex(
@@ -467,7 +467,7 @@ class Parser(object):
 
         data_frame = self._pivot(cls, column)
         self._agg_df = pd.concat(
-            [self._agg_df, data_frame], axis=1)
+            [self._agg_df, data_frame], axis=1, sort=True)
 
         if self._fill:
             self._agg_df = self._agg_df.fillna(method="pad")
-- 
2.43.0


From e98c25532ae8e32dc81ed1c0eb9d7026f8ebef30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 18/23] fix: keep the columns when the window selects no rows

An empty criterion is not a boolean series, so pandas took it as a
selection of no columns and inspect() reported the column as missing.
---
 trappy/stats/grammar.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 9e5c6dc..5ff7482 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -543,8 +543,7 @@ class Parser(object):
             data_frame = data_frame.loc[self._window[0]:self._window[1]]
 
         if self._filters:
-            criterion = pd.Series([True] * len(data_frame),
-                                  index=data_frame.index)
+            criterion = pd.Series(True, index=data_frame.index)
 
             for filter_col, wanted_vals in self._filters.items():
                 try:
-- 
2.43.0


From df00035efb87048ce566d671a436c1cf00b65971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 19/23] fix: keep free-form markers that start with a capital
 letter

The pattern of the user-space markers wasn't anchored at the end, so any
text that starts with a capital letter was reduced to that letter.
---
 trappy/systrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/systrace.py b/trappy/systrace.py
index 41d806f..8f9ea32 100644
--- a/trappy/systrace.py
+++ b/trappy/systrace.py
@@ -21,7 +21,7 @@ from trappy.ftrace import GenericFTrace
 import re
 
 SYSTRACE_EVENT = re.compile(
-    r'^(?P<event>[A-Z])(\|(?P<pid>\d+)\|(?P<func>[^|]*)(\|(?P<data>.*))?)?')
+    r'^(?P<event>[A-Z])(\|(?P<pid>\d+)(\|(?P<func>[^|]*)(\|(?P<data>.*))?)?)?$')
 
 class drop_before_trace(object):
     """Object that, when called, returns True if the line is not part of
-- 
2.43.0


From 9f72ccbdcdb522f2e159a5f31242d7f4bd7213b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 20/23] fix: open systraces without sched_switch events

The data frame of sched_switch has no columns if there are none.
---
 trappy/systrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/systrace.py b/trappy/systrace.py
index 8f9ea32..e16fcd9 100644
--- a/trappy/systrace.py
+++ b/trappy/systrace.py
@@ -69,7 +69,7 @@ class SysTrace(GenericFTrace):
 
         try:
             self._cpus = 1 + self.sched_switch.data_frame["__cpu"].max()
-        except AttributeError:
+        except (AttributeError, KeyError):
             pass
 
     def trace_hasnt_started(self):
-- 
2.43.0


From f46e67249efddc798aadc851754f50b82672f535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:23 +0000
Subject: [PATCH 21/23] fix: decode the numbers of ext4 events

The fields of ext4 events were kept as text when the trace was parsed, but
came back as numbers when the same trace was read from the cache.
---
 trappy/filesystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/filesystem.py b/trappy/filesystem.py
index 11cf4cd..c4e9043 100644
--- a/trappy/filesystem.py
+++ b/trappy/filesystem.py
@@ -31,7 +31,8 @@ class FilesystemExt4Base(Base):
         #filesystem traces are space delimited in the form:
         #fieldA valueA fieldB valueB ...
         data = data_str.split(' ')
-        return list(zip(data[0::2], data[1::2]))
+        return [(key, self.string_cast_int(value))
+                for key, value in zip(data[0::2], data[1::2])]
 
     def finalize_object(self):
         self.data_frame.rename(columns={'ino':'inode'}, inplace=True)
-- 
2.43.0


From 210b5a3684f7ebd21674cf700ca74d6bce165aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:23 +0000
Subject: [PATCH 22/23] fix: keep the comma inside the values of f2fs events

dev = (254,43) was shown as (254 43): only the comma that separates two
fields is punctuation.
---
 trappy/filesystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/filesystem.py b/trappy/filesystem.py
index c4e9043..bdb6c6e 100644
--- a/trappy/filesystem.py
+++ b/trappy/filesystem.py
@@ -74,7 +74,7 @@ register_ftrace_parser(FilesystemExt4SyncFileExit)
 class FilesystemF2FSBase(Base):
     def generate_data_dict(self, data_str):
         data_str = data_str.replace(" = ", "=")
-        data_str = data_str.replace(",", " ")
+        data_str = data_str.replace(", ", " ")
         return super(FilesystemF2FSBase, self).generate_data_dict(data_str)
 
     def finalize_object(self):
-- 
2.43.0


From 7f4dfdd57f5173efdf99c285d48273a8c9c2bbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:16 +0000
Subject: [PATCH 23/23] fix: set missing header metadata to None for cached
 traces too

_version and _cpus did not exist at all if the trace came from the cache and
its header had no such line.
---
 trappy/ftrace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index b0152ae..8a52ede 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -966,5 +966,9 @@ class FTrace(GenericFTrace):
     def __populate_trace_metadata(self, metadata):
         self.metadata = metadata
 
+        # Not every trace header has all of these
+        for key in ["version", "cpus"]:
+            setattr(self, "_" + key, None)
+
         for key, value in metadata.items():
             setattr(self, "_" + key, value)
-- 
2.43.0

