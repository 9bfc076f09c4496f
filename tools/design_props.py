P = {
'C01': 'Ghost array "rows got by event e from line i": for every trace section, __populate_data appends exactly one row, to the event __get_trace_class returns, for each line that matches the prefix and names an event, and none otherwise; __get_trace_class returns an event whose keyword is in the line, a fallback only if no other keyword is (invariant over the dict of keywords); __parse_trace_file builds that dict from exactly the uncached events.',
'C02': 'Same loop with times as IEEE doubles (order-preserving integers, nextafter = successor): the fold T(i) = printed(i) if it is larger, else successor(T(i-1)); lemma: strictly increasing, hence unique over all tables; base time and end time are T of the first and last event line.',
'C03': 'rx.py decides over all rendered lines (arbitrary task names incl. dashes, brackets, digits; flags; optional tgid column; both clocks; arbitrary payloads as restricted in the statement) that SPECIAL_FIELDS_RE matches and that its groups are the rendered fields; __populate_data passes exactly the decoded groups on and drops empty arrays.',
'C04': 'generate_data_dict against a recursive specification over the words of the payload (fold over the loop index: domain, value and type of every key, previous key); string_cast_int by the literal contract of int(s, 0).',
'C05': 'trace_parser_explode_array: the while loop is a fold over the array fields of the payload (position k of the text = expanded prefix + unread rest); per element name<i>=value and zero padding up to the given length; __get_trace_array_lengths is the maximum over lines and occurrences (inner while loop fold, lemma "longest occurrence"); create_dataframe expands every buffered payload with these lengths; payloads with braces in other places are outside the statement.',
'C06': 'append_data appends one entry to each of six parallel buffers; generate_parsed_data yields, for every i, the dict of buffer entries i updated with the decoded payload i (memory check has no influence); create_dataframe builds the table from exactly these, times beside them, and empties all buffers.',
'C07': '_calc_max_window: intersection of both windows, None = unbounded; _windowify_class keeps exactly the rows with lower <= t <= upper; _apply_user_parameters applies it to every table once before normalization, _do_parse and _load_cache reach it on the cached, partly cached and parsed paths with the window computed from the right base time.',
'C08': 'Base.normalize_time: every time minus the base, cells, order, count unchanged; _normalize_time applies the same base to every table exactly once (ghost counter); _do_parse calls it exactly once on every path; get_duration = max of last - min of first times over the non-empty tables (filtered list specification) and the lemma that differences and duration do not change.',
'C09': 'Abstract cache state (content digest, description, tables): _load_cache leaves a table cached only if description valid for this content and the file was read, sets base/end time and metadata from it, removes the cache otherwise; _do_parse parses exactly the uncached events; _update_cache writes the description of this content and the tables of exactly the uncached events before windows and normalization; csv paths are different for different events.',
'C10': 'Crash model of the file system with an interruption at every operation and OSError from every operation: invariant "every file table.csv below a description valid for the content is the complete table of that content"; holds at every point of _update_cache, so _load_cache by its contract never uses a truncated table; OSErrors only warn.',
'C11': '__add_events (nested loops with break/else) selects for each request every class by name, keyword or keyword without colon, or creates a generic parser; __init__ adds scope classes, raises RuntimeError iff two keywords contain one another (quantified over all pairs), creates one object per definition; register/unregister change exactly the documented scope dictionaries.',
'C12': 'The merge loop as a fold with ghost call log: per-table cursor, called exactly once per row with that row, callbacks in increasing line number; exhausted tables are removed; tables without rows are skipped.',
'C13': 'handle_duplicate_index: nested loops; contract on the new index for every group of equal times (first unchanged, others spaced by step <= max_delta, last below the next time), rows untouched; reals for float arithmetic, the refuter covers rounding.',
'C14': 'eval_binary_op is the left fold of OPERATOR_MAP over the operator chain (any length); every entry of OPERATOR_MAP is shown to denote its operation with operands in source order; eval_unary_op; the grammar built by get_parse_expression is compared, as a term, with the documented precedence levels, associativity and evaluation actions; number literal/variable/function lookups.',
'C15': '_get_data_frame returns exactly the rows in the window that pass every filter on an existing column (fold over the filter dict, lemma "passing all filters"), and no table of the trace is written to; inspect/_parse_for_info reports of those rows.',
'C16': 'Trigger.generate: rows with the pivot value passing the fold over all filters, callable/list/value; values are the constant or the named column; apply_filter_kv and listify separately.',
'C17': 'Topology.add_to_level/__init__/lookups against sets and lists of groups; _add_result (ghost series) writes exactly the entries of the trigger; _aggregate_base calls it once per trigger and node; aggregate returns per group the fold of the sum and leaves the base series alone (so repetition is the same); the unified index is the set of all event times.',
'C18': 'Constraint._apply per pivot value: exactly the rows with the pivot value passing every filter on existing columns; ConstraintManager expansion and zip/product construction as index functions (number(k, j) = base(k) + j); generate_pivots is the sorted union.',
'C19': 'Non-linear integer arithmetic: rows*cols >= n > (rows-1)*cols, get_2d is injective and in range, axes handed out are pairwise different, finish removes exactly the unused cells; all sizes.',
'C20': 'get_trace_event_data as fold over the switch rows with ghost ownership of open intervals: one interval per switch-in to a selected task, ended by the first switch-out or the end of the trace, earlier unfinished one dropped under its old name.',
'C21': 'filter_output as fold over lines with state (inside a removed section, imported files, libraries): output lines = specified subsequence with imports expanded; each file/library once per notebook through the object state. preprocess_cell: HTML of every output after the call as a function of the HTML before and of how many were filtered before it.',
'C22': 'pivot_with_labels: column per mask, value at t = latest value of the mask at or before t (padding lemma), KeyError for a nameless mask; num_cpus_in_mask counts the bits of the mask without commas; scaling of the four get_all_freqs; _get_load_series = sum over load columns; get_load_data, get_normalized_load_data = sum * freq / (max freq of mask * cpus).',
'C23': 'drop_before_trace is a two-flag automaton; the first line kept is the first event line behind the data marker behind the begin marker, the section ends before the closing tag (fold over lines); generate_data_dict decided by rx over all payloads; FallbackEvent keeps other payloads verbatim.',
'C24': 'SysEnter/SysExit.explode: rx decides that the pattern accepts exactly the form and groups are the printed numbers; the text handed to the decoder prints them in order (hex to int, signed); malformed lines raise ValueError quoting the line; create_dataframe maps explode over all lines.',
'C25': 'get_results: nested dictionaries as fold over the csv rows - value of (benchmark, run, number) is that of its first score/FPS row; get_run_number; SysfsExtractor.get_parameters: one entry per known parameter file present, integer or text.',
'C26': 'shift_series moves by position with missing samples at the border; align returns the distance of first/last non-zero positions, which coincide afterwards; _resample, get_unified_indexer and the top-level alignment decide which instants are compared and which shift is chosen; correlate = fold of weight*corr/total over groups with a defined correlation (products uninterpreted where linearity suffices).',
'C27': 'generate_data_dict of the clock, ext4 and f2fs classes against their documented grammars (text as a sequence of unbounded length; f2fs text as a joined sequence with symbolic parts, so that only which separators are replaced matters); sched_switch: the i-th decoded payload is the i-th line without its first arrow; finalize_object: the composed column renaming and cell substitution, for every column and cell.',
'C28': '__process_path: result as a function of which files exist; __get_raw_event_list: result = filtered concatenation of the class dictionaries (position function as ghost state); __generate_trace_txt: the command as an array over the unbounded event list; __get_trace_metadata: fold over the header lines, the three dynamically built patterns decided by rx; teardown removes only the converted file.',
}
