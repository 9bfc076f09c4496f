#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

F = "trappy/ftrace.py"; B = "trappy/base.py"
prop("C01", "Every recognised event line becomes exactly one row in exactly one table",
 "When a text trace is parsed, each line of the trace section that has the ftrace line format and contains the keyword of a requested event adds exactly one row to exactly one event table, and every other line adds no row anywhere. "
 "The row goes to an event whose keyword occurs in the line; an event declared as a fallback receives the line only if no non-fallback event's keyword occurs in it. "
 "The row's line number is the number of lines that precede it in the trace section, so line numbers are distinct and follow file order across all tables.",
 ["inputs", "configurations"], "all trace files (any number and interleaving of lines, recognised or not) and all sets of requested/registered events whose keywords are pairwise not substrings of each other",
 "tests parse a handful of short fixed traces with one to three events; the guarantee is over every interleaving, every line content and every set of registered events, including the fallback parser and lines that match nothing",
 [F], [("line loop", F+":GenericFTrace.__populate_data"), ("keyword dispatch", F+":GenericFTrace.__get_trace_class"), ("keyword table", F+":GenericFTrace.__parse_trace_file"), ("row buffer", B+":Base.append_data")],
 ["data_frame of every event, column __line"])
prop("C02", "Event timestamps are unique, ordered as in the file, and faithful",
 "Across all event tables of a parsed text trace (time normalization off), no two events share a timestamp and timestamps strictly increase in file order. "
 "An event whose printed time is larger than the timestamps of all earlier events keeps exactly the printed time, in seconds (a time printed without a decimal point is in nanoseconds); any other event gets the next representable number after the previous event's timestamp. "
 "The trace's base time and end time are the timestamps of its first and last event lines.",
 ["inputs"], "all sequences of printed times: increasing, equal, decreasing, seconds or nanoseconds, any mix, any number of events, whichever event tables they go to",
 "tests use a few traces with one duplicate; the guarantee is an invariant of the whole sequence, for any number of repeated or decreasing times and for lines of events that were not requested",
 [F], [("timestamp uniquing", F+":GenericFTrace.__populate_data")], ["index of every data_frame", "basetime", "endtime"])
prop("C03", "The fixed prefix of an event line is decoded exactly",
 "For a line rendered in the ftrace text format from a task name, a process id, an optional thread-group column, a CPU number, an optional four-character flags column, a time, an event name and a payload, the recorded task name, process id, CPU, time and payload are exactly the rendered ones. "
 "This includes task names that contain spaces, dashes, digits, brackets, parentheses or colons, and holds for any payload without surrounding white space that does not itself contain text shaped like another line prefix and does not begin with a word followed by a colon (which is read as part of the event name); empty array fields name={} are dropped from the payload.",
 ["inputs"], "all task names, pids, cpus, flags, times and payloads in the stated format",
 "tests sample about ten line shapes; the decoder is one regular expression whose ambiguity has to be excluded for all strings",
 [F], [("line format", F+":SPECIAL_FIELDS_RE"), ("decode", F+":GenericFTrace.__populate_data")], ["columns __comm, __pid, __cpu, index"])
prop("C04", "key=value payloads are decoded to exactly the printed fields",
 "For a payload that is a space-separated list of words whose first word contains '=', the decoded row has exactly the keys that occur before the first '=' of a word, and no other field. "
 "Each key's value is what follows the first '=' of the last word with that key, converted to an integer if it is an integer literal and left as a string otherwise; a string value is extended by the words without '=' that directly follow it, joined by single spaces, while such words after an integer value are ignored. "
 "A payload whose first word has no '=' is rejected with a parse error, unless it carries the trace-cmd 'FAILED TO PARSE' marker, in which case such leading words are skipped with a warning.",
 ["inputs"], "all payload strings: any number of words, repeated keys, values with spaces, '=' inside values, any integer base prefix",
 "tests check a few payloads; the rule relates every output key to a position in an unbounded word list",
 [B], [("payload decoder", B+":Base.generate_data_dict"), ("value conversion", B+":Base.string_cast_int")], ["data_frame columns and cells"])
prop("C05", "Array fields are expanded into numbered columns padded with zeros",
 "If a payload contains fields of the form name={v0 v1 ... vk} with at least one element, the event's table has for each such name the numbered columns name0, name1, ... up to the longest occurrence of that array anywhere in that event's lines. "
 "In each row that prints the array, column name<i> holds the i-th printed element where the row's array is long enough and 0 otherwise; all other fields of the payload are unaffected. "
 "This holds wherever in the trace the first array appears, for several arrays in one payload, and an empty array is dropped without disturbing the other fields.",
 ["inputs"], "all sequences of payloads with any number of arrays of any lengths, including lines without arrays before, between and after",
 "tests use one array of at most ten elements in a few lines, always starting from the first line; the guarantee couples every line with the maximum over all lines",
 [B, F], [("expansion", B+":trace_parser_explode_array"), ("length scan", B+":Base.__get_trace_array_lengths"), ("driver", B+":Base.create_dataframe"), ("empty arrays", F+":GenericFTrace.__populate_data")], ["data_frame columns and cells"])
prop("C06", "Rows keep the identity of their line: no field moves between rows",
 "The i-th row of an event's table carries the task name, pid, cpu, line number and time of the i-th recorded line of that event, together with the fields decoded from that same line's payload (a payload field overrides a metadata field of the same name, and cells of fields the line does not print are missing values). "
 "The table has exactly as many rows as recorded lines, in recording order, and the parser's line buffers are empty afterwards.",
 ["inputs"], "all sequences of recorded lines with arbitrary, differing sets of payload fields",
 "tests look at a few cells of small homogeneous traces; alignment must hold for every row and for heterogeneous payloads",
 [B], [("row generator", B+":Base.generate_parsed_data"), ("table builder", B+":Base.create_dataframe"), ("line buffers", B+":Base.append_data")], ["data_frame rows"])
prop("C07", "Time windows select exactly the events inside both windows",
 "When a trace is opened with a relative window and/or an absolute window, every event table contains exactly the events whose original time lies inside both windows, bounds included; the relative window is measured from the trace's first event, and an upper bound of None means no upper limit. "
 "Rows inside are unchanged and stay in time order, and the result is the same whether the data was parsed or loaded from the cache.",
 ["inputs", "configurations"], "all traces and all pairs of windows, including zero, negative, empty, disjoint and single-instant windows",
 "tests try fewer than ten windows, never with both upper bounds in conflict; the guarantee is over every pair of real bounds against every timestamp",
 [F], [("window intersection", F+":GenericFTrace._calc_max_window"), ("slicing", F+":GenericFTrace._windowify_class"), ("application", F+":GenericFTrace._apply_user_parameters")], ["data_frame index of every event"])
prop("C08", "Time normalization shifts every table by the same base time and nothing else",
 "With normalization on, every time in every event table equals the original time minus the trace's base time, all tables use the same base time, and row order, row count and all cells are unchanged; with normalization off times are the printed ones. "
 "Time differences between any two events, in the same or in different tables, and the trace duration are therefore the same with and without normalization.",
 ["inputs", "configurations"], "all traces, any number of event tables (including empty ones), any base time",
 "tests check the first timestamp of one table; the guarantee couples all rows of all tables",
 [B, "trappy/bare_trace.py", F], [("shift one table", B+":Base.normalize_time"), ("shift all tables", "trappy/bare_trace.py:BareTrace._normalize_time"), ("duration", "trappy/bare_trace.py:BareTrace.get_duration"), ("application", F+":GenericFTrace._apply_user_parameters")], ["data_frame index", "basetime", "get_duration()"])
prop("C09", "A cached trace gives the same answers as parsing; stale caches are dropped",
 "Opening a trace whose cache was written by an earlier open yields the same event tables, base time, end time and metadata as parsing the file without a cache, whatever windows, normalization or event subsets either open used. "
 "If the trace file's content changed after the cache was written, or the cache's description is missing, unreadable or incomplete, nothing cached is used and the result equals a fresh parse. "
 "If only some events are cached, exactly the missing ones are parsed from the file and added to the cache.",
 ["histories", "inputs", "configurations"], "all histories of opens with any events, windows and normalization settings, with edits of the trace file or of cache files in between",
 "tests exercise a few two-step histories; the guarantee is over all histories and every combination of cached and uncached events",
 [F, B], [("cache load", F+":GenericFTrace._load_cache"), ("validity", F+":GenericFTrace._is_cache_valid"), ("cache update", F+":GenericFTrace._update_cache"), ("driver", F+":GenericFTrace._do_parse"), ("serialisation", B+":Base.write_csv/read_csv")], ["data_frame after reopen", "cache directory"])
prop("C10", "An interrupted cache write never corrupts later results",
 "If the process is interrupted at any point while a trace's cache is being created or extended, every later open of that trace succeeds and returns the same tables as parsing the file without a cache. "
 "A failure of the file system while writing the cache only produces a warning; the parsed data is still returned.",
 ["crash_points", "fault_sequences"], "all interruption points between and inside file system operations of the cache update, and all positions of a failing operation",
 "tests never interrupt a cache write; the crash point is universally quantified",
 [F, B], [("cache update", F+":GenericFTrace._update_cache"), ("directory setup", F+":GenericFTrace._prepare_cache_dir"), ("load", F+":GenericFTrace._load_cache"), ("csv writer", B+":Base.write_csv")], ["cache directory", "data_frame after reopen"])
prop("C11", "Event selection is complete and ambiguous event keywords are rejected",
 "A trace object has one table for every event of the selected scope and for every explicitly requested event, whether requested by name, by keyword or by keyword without its colon; a requested event unknown to the registry gets a generic parser keyed on its name followed by a colon. "
 "Opening a trace fails if and only if, among the selected events, the keyword of one is a substring of the keyword of another. "
 "Registering an event makes it available in its scope under its name, and unregistering removes it from every scope and leaves all others untouched.",
 ["configurations", "histories"], "all registries, all sequences of register/unregister operations, all scopes and all lists of requested events",
 "tests register a few parsers; the check for ambiguous keywords is over all pairs and the registry operations over all histories",
 [F, "trappy/dynamic.py"], [("event selection", F+":GenericFTrace.__add_events"), ("scope and ambiguity", F+":GenericFTrace.__init__"), ("registry", F+":GenericFTrace.register_parser/unregister_parser"), ("dynamic classes", "trappy/dynamic.py")], ["class_definitions", "attributes of the trace object"])
prop("C12", "Callbacks see every event once, in file order across tables",
 "Applying a set of per-event callbacks to a trace calls, for every row of every selected table, that event's callback exactly once with that row's time and all its column values by name, and nothing else is called. "
 "The calls are made in increasing line-number order across all the selected tables; tables without rows are skipped.",
 ["inputs", "configurations"], "all numbers of tables and rows, every interleaving of their line numbers, any column names",
 "tests merge two short tables; a k-way merge has unboundedly many interleavings",
 [F], [("k-way merge", F+":GenericFTrace.apply_callbacks")], ["sequence of callback calls"])
prop("C13", "Making duplicate times unique keeps data, order and neighbours",
 "Given time-indexed data sorted by time (or with line numbers that define the order), the result has strictly increasing, unique times, the same rows with the same values in the same order, and as many rows. "
 "The first of several equal times is unchanged, every adjusted time stays strictly below the next different original time, and a time that was already unique is unchanged; consecutive adjusted times are at most the given maximum step apart (up to floating-point resolution).",
 ["inputs"], "all non-decreasing time sequences with any number and size of groups of equal times, and all positive maximum steps",
 "tests use groups of two or three equal times; the guarantee is over groups of every size next to neighbours at every distance",
 ["trappy/utils.py"], [("de-duplication", "trappy/utils.py:handle_duplicate_index")], ["index and values of the result"])
prop("C14", "Expression operators have their documented meaning, precedence and grouping",
 "The expression language evaluates a chain of binary operators of one precedence level from left to right, applying to each pair the operation its symbol denotes, to scalars and element-wise to data; each operator's operands appear in source order. "
 "Exponentiation binds tighter than unary sign, then multiplication-like, then additive, then relational, then logical operators, parentheses override, unary minus negates, and numeric literals, variables and function calls denote their value.",
 ["programs"], "all expressions of the grammar: any length, nesting and mix of operators",
 "tests evaluate a dozen fixed expressions; the claim is over all expression trees and operand types",
 ["trappy/stats/grammar.py"], [("operator table", "trappy/stats/grammar.py:OPERATOR_MAP"), ("left fold", "trappy/stats/grammar.py:eval_binary_op"), ("unary", "trappy/stats/grammar.py:eval_unary_op"), ("precedence", "trappy/stats/grammar.py:get_parse_expression")], ["Parser.solve result"])
prop("C15", "Expressions read exactly the rows selected by the window and the filters",
 "The data an expression or an inspection reads from an event is exactly the rows of that event whose time is within the given window (bounds included, None meaning unbounded) and which, for every filter on a column the event has, hold one of the wanted values; filters on columns the event lacks are ignored. "
 "The trace's own tables are never modified.",
 ["inputs", "configurations"], "all tables, windows and filter dictionaries with single values or lists of values",
 "tests use one or two filters on fixed data; the selection is a predicate over every row",
 ["trappy/stats/grammar.py"], [("row selection", "trappy/stats/grammar.py:Parser._get_data_frame")], ["Parser.solve/inspect result"])
prop("C16", "A trigger yields exactly the rows that match its pivot value and filters",
 "A trigger evaluated for a pivot value yields one entry for each row of its event whose pivot column equals that value and which passes every filter, at that row's time and in table order, and nothing else: a callable filter passes where it returns true for the row's value, a value filter where the row's value equals it, a list filter where the row's value is one of the list, and filters on missing columns by value are ignored. "
 "The entry's value is the trigger's constant, or the row's value of the named column if the trigger's value is a string.",
 ["inputs", "configurations"], "all tables, pivot values, filter dictionaries and trigger values",
 "tests use two triggers on one trace; the result is a predicate over every row and filter combination",
 ["trappy/stats/Trigger.py"], [("selection", "trappy/stats/Trigger.py:Trigger.generate"), ("value filters", "trappy/stats/Trigger.py:apply_filter_kv")], ["Trigger.generate result"])
prop("C17", "Topology levels and aggregation by level are exact and repeatable",
 "A topology's node set is the union of all groups ever added at any level, each level returns its groups in insertion order, the level 'all' is one group of all nodes, and the group count and index lookups agree with the returned groups. "
 "Aggregating by a level returns one result per group, in order, equal to the sum over the group's nodes of the aggregation function applied to that node's own data (every trigger's entries at their times, zero elsewhere). "
 "Repeating an aggregation, in any order of levels, gives the same result.",
 ["inputs", "histories", "configurations"], "all topologies, all trigger data, all sequences of aggregation calls",
 "tests aggregate once on small topologies; repeatability is over call histories and sums over arbitrary group sizes",
 ["trappy/stats/Topology.py", "trappy/stats/Aggregator.py", "trappy/stats/Indexer.py"], [("levels", "trappy/stats/Topology.py:Topology"), ("aggregation", "trappy/stats/Aggregator.py:MultiTriggerAggregator.aggregate"), ("base series", "trappy/stats/Aggregator.py:MultiTriggerAggregator._aggregate_base"), ("index", "trappy/stats/Indexer.py")], ["aggregate result"])
prop("C18", "Plot constraints partition the data by pivot and filter exactly",
 "A plot constraint yields, for each selected pivot value that has data, exactly the entries of the data column whose row has that pivot value and holds an allowed value in every filtered column the data has, in order; a filter on the pivot column restricts the pivot values, and with no pivot there is a single unpivoted group. "
 "Traces, columns and events of length one are repeated to the common length, pairing the i-th of each (or every trace with every column when not zipped), and incompatible lengths are rejected. "
 "The set of pivot values offered for plotting is the sorted union over all constraints.",
 ["inputs", "configurations"], "all data tables, pivots, filters and input list lengths",
 "tests use small frames with one filter; exactness is a predicate over every row, pivot value and combination of list lengths",
 ["trappy/plotter/Constraint.py", "trappy/plotter/Utils.py"], [("filter and pivot", "trappy/plotter/Constraint.py:Constraint._apply"), ("pivot values", "trappy/plotter/Constraint.py:Constraint.pivot_vals"), ("expansion", "trappy/plotter/Constraint.py:ConstraintManager"), ("repeat", "trappy/plotter/Utils.py:normalize_list")], ["constraint.result", "generate_pivots()"])
prop("C19", "A plot grid gives every plot its own cell and has no spare row",
 "For any positive number of columns and plots, the grid has as many columns as requested but no more than there are plots, and the smallest number of rows that holds all plots. "
 "Plots map to distinct cells inside the grid, filled row by row, and finishing after n plots removes exactly the cells that no plot uses. A request for zero plots is rejected.",
 ["inputs", "configurations"], "all positive column counts and plot counts, and all plot indices",
 "tests check about ten (columns, plots) pairs; the arithmetic must be right for all",
 ["trappy/plotter/PlotLayout.py"], [("grid size", "trappy/plotter/PlotLayout.py:PlotLayout.__init__"), ("index to cell", "trappy/plotter/PlotLayout.py:PlotLayout.get_2d"), ("cleanup", "trappy/plotter/PlotLayout.py:PlotLayout.finish")], ["get_axis(i)", "deleted axes"])
prop("C20", "Task residency intervals equal the task switches of the trace",
 "The residency data computed for a trace has one interval per switch to a selected task (not idle, not a migration thread, and in the requested names and pids if given), listed under the task's name and pid, starting at that switch on that CPU. "
 "The interval ends at the first later switch away from that pid, or at the end of the trace if there is none; if the same pid is switched in again before being switched out, the earlier unfinished interval is dropped with a warning and nothing else is lost.",
 ["inputs", "configurations"], "all sequences of switches on any number of CPUs, with dropped events and tasks that change name, and all filters",
 "tests use traces with a few switches; open-interval bookkeeping is an invariant over all switch sequences",
 ["trappy/plotter/Utils.py"], [("interval bookkeeping", "trappy/plotter/Utils.py:get_trace_event_data")], ["returned data and task set"])
prop("C21", "Published notebooks keep every unmarked line and drop every marked one",
 "Filtering a notebook output cell keeps exactly the lines that are neither inside a remove-start/remove-stop pair, nor on a marker line, nor marked as a removed line, in order and unchanged. "
 "An import marker is replaced by the content of the named file and a library marker by a script tag, each only the first time that file or library appears in the notebook. "
 "Preprocessing a code cell filters every displayed output that has HTML, in order and once, and leaves its other outputs and other cells as they are.",
 ["inputs", "histories"], "all cell texts and all sequences of cells of a notebook",
 "tests use a few cells; the line automaton and the once-only rule are over all sequences of lines and cells",
 ["trappy/nbexport/exporter.py"], [("line filter", "trappy/nbexport/exporter.py:TrappyPlotterPreprocessor.filter_output"), ("cell outputs", "trappy/nbexport/exporter.py:TrappyPlotterPreprocessor.preprocess_cell")], ["filtered text"])
prop("C22", "Power tables are pivoted, padded and scaled exactly",
 "Pivoting power data by CPU mask gives one column per mask present, named by the given mapping, holding at each time the latest value printed for that mask at or before that time (missing before the first); a mask without a name is an error. "
 "CPU frequencies are the printed ones divided by 1000 and device frequencies the printed ones divided by 1000000, the total load is the sum of all per-CPU load columns, and the normalized load is that sum times the frequency divided by the mask's maximum frequency times the number of CPUs in the mask.",
 ["inputs", "configurations"], "all power event tables with any number of clusters, CPUs and rows, and all mappings",
 "tests use one fixed trace; padding and scaling are per-row formulas over all tables",
 ["trappy/cpu_power.py"], [("pivot", "trappy/cpu_power.py:pivot_with_labels"), ("mask size", "trappy/cpu_power.py:num_cpus_in_mask"), ("load", "trappy/cpu_power.py:CpuInPower.get_normalized_load_data")], ["returned data frames"])
prop("C23", "Android systrace files: only the trace section is read, user events are decoded",
 "From an Android systrace HTML file exactly the event lines between the start of the trace data section and its closing script tag are read; text shaped like events before or after that section adds nothing. "
 "A user-space marker payload of the form X|pid|function|data, from which trailing parts may be missing, is decoded into its event letter, integer pid, function and data, and any other marker payload is kept verbatim as a string.",
 ["inputs"], "all systrace files: any header, any number of event lines, any trailing content; all marker payloads",
 "tests use three fixed files; the section automaton and the payload decoder must be right for every file",
 ["trappy/systrace.py", "trappy/fallback.py"], [("section start", "trappy/systrace.py:drop_before_trace.__call__"), ("section end", "trappy/systrace.py:SysTrace.trace_hasnt_finished"), ("payload", "trappy/systrace.py:SysTrace.generate_data_dict"), ("fallback", "trappy/fallback.py:FallbackEvent.generate_data_dict")], ["tracing_mark_write data_frame"])
prop("C24", "System call events decode to the printed number, arguments and result",
 "A raw system-call entry line printing a call number and six hexadecimal arguments yields a row with exactly that number and those six argument values, in order; an exit line yields exactly the printed number and signed result. "
 "A line of these events that does not have this form makes parsing fail with an error that quotes the line.",
 ["inputs"], "all call numbers, argument and result values, signed or not",
 "tests use one line of each kind; the decode must hold for all values in all six positions",
 ["trappy/raw_syscalls.py"], [("entry decoder", "trappy/raw_syscalls.py:SysEnter.explode"), ("exit decoder", "trappy/raw_syscalls.py:SysExit.explode")], ["data_frame of sys_enter and sys_exit"])
prop("C25", "Workload results and parameters are collected without loss or mix-up",
 "The results table built from a results file has, for every benchmark, run name and run number with a score or frame-rate metric, exactly the first value listed for that combination, and no other value. "
 "Collecting a thermal parameter dump returns exactly one entry per known parameter file present, with the file's content as an integer when it is one and as text otherwise.",
 ["inputs"], "all results files (any order of rows, repeated rows, several workloads and iterations) and all dump directories",
 "tests use one fixed results file and one dump; the claim is over all row sequences",
 ["trappy/wa/results.py", "trappy/wa/sysfs_extractor.py"], [("metric classifier", "trappy/wa/results.py:get_run_number"), ("collector", "trappy/wa/results.py:get_results"), ("parameter dump", "trappy/wa/sysfs_extractor.py:SysfsExtractor.get_parameters")], ["returned table and dict"])
prop("C26", "Aligning two signals shifts the earlier one by exactly the edge distance",
 "Aligning two signals by their first (or last) non-zero samples returns the distance in positions between those samples, and the returned pair has the two samples at the same position, with all other samples shifted by the same distance and none changed; if either signal has no non-zero sample both are returned unshifted. "
 "The overall correlation of a level is the sum of the group correlations, each weighted by its group's share of all non-zero samples of both signals (missing samples count as non-zero), with undefined correlations counting as zero. "
 "Unless told otherwise both sides are first resampled: at the instants from the first one of either side's data, one default delta apart, before the last one, each taking the latest sample at or before it (missing if there is none); and all groups are shifted by the distance of that alignment, at the front or at the back, of the two resampled top-level signals which correlates better, an undefined correlation counting as zero and the front winning a tie.",
 ["inputs"], "all pairs of signals of any length and all pairs of edge positions",
 "tests use a few hand-made signals; the alignment must hold for both directions and every distance",
 ["trappy/stats/Correlator.py", "trappy/stats/Indexer.py"], [("alignment", "trappy/stats/Correlator.py:align"), ("shift", "trappy/stats/Correlator.py:shift_series"), ("weighting", "trappy/stats/Correlator.py:Correlator.correlate"), ("resampling", "trappy/stats/Correlator.py:Correlator._resample"), ("choice of the shift", "trappy/stats/Correlator.py:Correlator._align_top_level")], ["align result", "correlate result"])

prop("C27", "Events with a format of their own decode to the documented columns",
 "Clock events (name, then key=value fields) yield the clock's name as clk_name and the fields; ext4 events (alternating names and values) and f2fs events (name = value, separated by a comma and a blank; 'checkpoint is value') yield each name with its value, whole numbers as integers and other text unchanged; of a task switch line exactly the first arrow ' ==> ' is removed before its key=value fields are decoded. "
 "In the finished tables ino is called inode, cpu_id is called cpu and state is called capacity or frequency (CPU capacity and frequency events) or rate (clock rate events), an idle state printed as 4294967295 is -1, the cpus mask of sched_load_avg_sg is shown with leading zeros in eight digits, and every other column and value is as decoded.",
 ["inputs"], "all payloads of the documented forms with any number of fields, and all tables of these events",
 "tests check the set of columns on one fixed trace per event; names and values must be paired correctly for every payload",
 ["trappy/filesystem.py", "trappy/common_clk.py", "trappy/sched.py", "trappy/idle.py"], [("clock events", "trappy/common_clk.py:CommonClkBase.generate_data_dict"), ("ext4 events", "trappy/filesystem.py:FilesystemExt4Base.generate_data_dict"), ("f2fs events", "trappy/filesystem.py:FilesystemF2FSBase.generate_data_dict"), ("task switches", "trappy/sched.py:SchedSwitch.create_dataframe"), ("idle states", "trappy/idle.py:CpuIdle.finalize_object")], ["data_frame of these events"])
prop("C28", "The right trace file is read, converted once, and its header is reported",
 "Given a file, the trace that is read is the .dat file of that name if there is one and otherwise the .txt file; given a directory, the same with the name trace; if there is neither, opening fails. A binary trace is converted exactly once by trace-cmd report, which is asked for every registered event that is parsed unformatted, and for no other, to be printed unformatted; the converted text is removed after parsing and no other file of the user is. "
 "The version and the number of CPUs of the trace (_version, _cpus, metadata) are the first ones printed on a header line before the first event line, or None if there is none, also when the trace is read from the cache.",
 ["inputs", "configurations"], "all paths and combinations of existing files, all sets of registered events, all headers",
 "tests use a few directories and two headers; precedence, command and header scan are claims over all of them",
 ["trappy/ftrace.py"], [("file choice", "trappy/ftrace.py:FTrace.__process_path"), ("conversion", "trappy/ftrace.py:FTrace.__generate_trace_txt"), ("unformatted events", "trappy/ftrace.py:FTrace.__get_raw_event_list"), ("header", "trappy/ftrace.py:FTrace.__get_trace_metadata"), ("header attributes", "trappy/ftrace.py:FTrace.__populate_trace_metadata")], ["_version", "_cpus", "metadata", "the trace-cmd command", "files left behind"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
