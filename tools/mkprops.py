"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": ["dustgoggles/" + f for f in files],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

# ---------------------------------------------------------------- composition
prop("C01", "A pipeline computes the ordered fold of its steps",
  "Executing a composition (by call, by execute, or by iterating it) calls every step exactly once, in the order of the steps mapping, passing the signal to the first step and each step's output to the next, and returns the last output; iterating yields exactly the successive outputs, lazily and in order. Executing leaves the steps unchanged, so a later execution performs the same calls.",
  ["inputs", "programs", "histories"], "every finite non-empty ordered steps mapping, every signal, every (possibly stateful) step callable that does not itself edit the composition",
  "Two fixed pipelines of 3 and 6 steps are executed once; the claim is about every number of steps, every callable and every re-execution.",
  ["composition.py"], [("execute/itercall/_do_step loop", "composition.py:Composition.itercall, execute"), ("call_step", "composition.py:Composition.call_step")],
  [("steps", "ordered name -> callable mapping", "Composition.steps")], ["return value of execute / __call__", "values yielded by itercall", "calls received by steps"])
prop("C02", "Step arguments combine inserts, baked-in arguments and the signal",
  "When a step runs, integer-keyed inserts become positional arguments and string-keyed inserts keyword arguments; for partially applied steps they override the arguments baked into the step at the same position or name, and everything not overridden is kept. The signal takes the lowest position that is not occupied, and running a step changes neither its inserts nor the step, so the next run assembles its arguments in the same way.",
  ["inputs", "programs", "histories"], "every step (plain or partially applied), every set of inserts and baked-in arguments, every signal, any number of executions",
  "Tests use inserts at positions 0 and 1 of two steps; occupied/free position patterns, overrides and repeated execution are unbounded.",
  ["composition.py"], [("argument assembly", "composition.py:Composition.call_step, _call_partial_step, _flow_signal")],
  [("inserts", "step name -> {position or keyword: value}", "Composition.inserts")], ["arguments received by step callables"])
prop("C03", "Sends deliver each step's output exactly once and never alter the flow",
  "After a step completes and before the next one starts, every send registered for that step fires exactly once in registration order with that step's output (passed through the send's pipe if it has one) and is delivered to its target: as an insert of the named step, appended or assigned in a list, assigned in a dict, or written to a writer. Sends of other steps do not fire, and the signal handed to the next step and the returned value are the step's own output whatever sends exist.",
  ["inputs", "programs", "histories"], "every composition, every list of sends per step, every pipe/target kind, every execution",
  "One send of one kind (insert into a later step) is exercised; order, multiplicity and the other targets are not.",
  ["composition.py"], [("send loop", "composition.py:Composition._perform_sends"), ("dispatch on target kind", "composition.py:Composition.place_into"), ("registration", "composition.py:Composition.add_send, add_capture, add_captures")],
  [("sends", "step name -> list of (pipe, target, pointer)", "Composition.sends")], ["targets of sends", "calls received by pipes"])
prop("C04", "A failing step stops the pipeline and is reported, not swallowed",
  "If a step or one of its sends raises, no later step runs; a composition that is not optional lets exactly that exception out, and an optional one returns None for ordinary exceptions (never for keyboard interrupts). If a tracker is attached, exactly one failure record is added, naming the step that failed; a run without a failure adds none.",
  ["inputs", "fault_sequences"], "every composition, every step or send position that raises, every exception other than StopIteration, optional or not, tracked or not",
  "No test makes a pipeline step fail.",
  ["composition.py"], [("exception handling and step attribution", "composition.py:Composition.execute")], [], ["exception or value leaving execute", "tracker history"])
prop("C05", "Editing a pipeline changes exactly what was asked",
  "Adding a step under an existing name replaces it in place, under a new name appends it last, and under no name uses the number of steps plus one; reindexing renumbers the steps from zero in order and changes nothing else. Adding an insert or a send affects only that step name's entry, keeps earlier sends in order, and a send with neither pipe nor target is refused without any change; captures added to all steps hold, after a run, exactly each step's latest output.",
  ["inputs", "histories"], "every composition state and every edit operation with every argument",
  "Only add_insert and add_send on two fixed keys are exercised; frames (what must not change) are never checked.",
  ["composition.py", "structures.py"], [("editing operations", "composition.py:Composition.add_step, add_insert, add_send, add_captures, reindex")], [], ["steps, sends and inserts after each edit"])
# ---------------------------------------------------------------- structures
prop("S01", "Searching a nested mapping for all matches is complete and exact",
  "For every nested mapping and match rule, the all-results searches (dig_for_keys, dig_for_values, dig_for_items) return every matching entry at every depth exactly once and nothing else, each level's own matches in mapping order before the matches of its nested mappings taken in mapping order; they return None exactly when nothing matches. The three searches return the keys, the values and the pairs of the same entries, and nothing is modified.",
  ["inputs"], "all nested mappings of any depth and width, all constant or callable match rules (by key, value or item), all sets of types treated as nesting",
  "One JSON fixture with one key is searched; depth, width, ordering and rule kinds are unbounded.",
  ["structures.py"], [("level scan + recursion", "structures.py:_evaluate_diglevel, dig_for_all, dig_all_wrapper"), ("rule normalisation", "structures.py:constant_to_dig_predicate, keyonly, valonly")], [], ["return value"])
prop("S02", "A single-result nested search finds a match whenever one exists",
  "For every nested mapping and match rule, the single-result searches (dig_for_key, dig_for_value, dig_for_item) return None exactly when no entry at any depth matches, and otherwise the key, value or pair of the entry that the all-results search would list first.",
  ["inputs"], "all nested mappings of any depth and width, all match rules, all nesting types",
  "One fixture, two queries; a search that gives up in the wrong branch or descends in the wrong order passes it.",
  ["structures.py"], [("level-first descent with early exit", "structures.py:dig_for, dig_wrapper, _evaluate_diglevel")], [], ["return value"])
prop("S03", "Nested editing changes exactly the matching entries, in place, at every depth",
  "For every nested mapping, filter and setter, an edit replaces the value of every entry selected by the filter with the setter's result for that key and old value, at every depth, descending into nested mappings present after the level's replacements; every other entry, every key and the key order stay as they were. The mapping passed in is modified in place and returned.",
  ["inputs"], "all nested mappings without shared sub-mappings, all filters and setters that have no side effects on the mapping",
  "No test calls the editing function directly.",
  ["structures.py"], [("filter, set, descend", "structures.py:dig_and_edit")], [], ["the mapping after the call", "return value"])
prop("S04", "Auto-nesting dictionaries nest at any depth and convert to plain dicts",
  "Indexing an auto-nesting dictionary with a missing key creates an empty auto-nesting dictionary there, so a chain of keys of any depth can be assigned and read back; existing entries are returned as they are. Converting it to a plain dict gives a mapping with the same keys, order, nesting and leaf values in which no auto-nesting dictionary remains at any level.",
  ["inputs", "histories"], "all sequences of chained assignments, all nesting depths",
  "Used only indirectly by a random generator whose output no test inspects.",
  ["structures.py"], [("default factory", "structures.py:NestingDict.__init__"), ("conversion by nested edit", "structures.py:NestingDict.todict, dig_and_edit")], [], ["contents after conversion"])
prop("S05", "Recursive merge is a deep right-biased union that leaves its inputs alone",
  "The recursive merge of two mappings has exactly the union of their keys; a key in only one keeps that value, a key whose values are nesting mappings in both gets their recursive merge under the same nesting types at every depth, and any other shared key gets the second mapping's value. Neither input (nor anything nested in it) is modified.",
  ["inputs"], "all pairs of nested mappings of any depth, all nesting type tuples",
  "No test exercises it.",
  ["structures.py"], [("key-wise merge with recursion", "structures.py:rmerge")], [], ["return value", "inputs after the call"])
prop("S06", "Nested mappings become records carrying their own path and nothing else",
  "Flattening a nested mapping into records gives one record per innermost mapping, in mapping order; each record has that mapping's own entries plus, for every level above it, the level's name bound to the key on that path, and no keys from sibling branches. Level names default to 1, 2, 3, ... counted from the top in every branch, and the input is not modified.",
  ["inputs"], "all non-empty mappings of mappings of any (even uneven) depth, all level name sequences long enough for the depth",
  "One two-level fixture with equal depths and explicit names; sibling isolation and uneven depth are not covered.",
  ["structures.py", "func.py"], [("recursive descent with copied level names and copied branch", "structures.py:to_records"), ("default names", "func.py:naturals")], [], ["returned records"])
prop("S07", "Unnesting keeps every leaf under its full path",
  "Flattening a nested mapping into a single-level dict maps, for every leaf, the escaped names of the levels above it joined with underscores and followed by its own key to that leaf's value; nothing else appears, the order is that of a depth-first walk, and if two leaves get the same flat name the later one wins. Top-level leaves keep their (stringified) key and the input is not modified.",
  ["inputs"], "all nested mappings of any depth, all escape strings, all nesting types",
  "No test exercises it.",
  ["structures.py"], [("recursive prefixing", "structures.py:_unnest, unnest")], [], ["return value"])
prop("S08", "Hierarchical lookup returns the addressed item or the default, never an error",
  "Looking up a path in nested collections applies each path element to the current level, as an item if the level has such an item and otherwise as an attribute, and returns the final level; if some path element is neither, it returns the default. An element that is a missing key or an out-of-range index of any type never raises, and an empty path returns the collection itself.",
  ["inputs"], "all nestings of mappings, sequences and objects, all paths, all defaults",
  "One successful path is tested; misses, indices and defaults are not.",
  ["structures.py"], [("item-then-attribute access", "structures.py:getitemattr"), ("fold over path", "structures.py:get_from")], [], ["return value"])
prop("S09", "Reshaping helpers keep every element, in order, exactly once",
  "Reindexing a mapping numbers its values from zero in order; enumerating a sequence does the same for its elements, passes mappings through unchanged and turns nothing into an empty mapping; separating a collection puts each element, in order, into exactly one of two lists according to the test; collecting one key from many mappings gives one value per mapping in order with the default for misses; listifying returns all elements of a non-string collection in order and wraps anything else. Inserting a new key after an existing one keeps all other entries in order and places the new entry immediately after it; if the prior key is absent the result equals the input.",
  ["inputs"], "all finite mappings, sequences and collections, all keys and tests",
  "Only enumerating one fixture list is exercised, indirectly.",
  ["structures.py"], [("helpers", "structures.py:reindex_mapping, enumerate_as_mapping, separate_by, get_from_all, listify, insert_after")], [], ["return value"])
prop("S10", "A deduplicating dictionary returns an equivalent of what was last stored",
  "Reading a key of a deduplicating dictionary returns a value equivalent, under the dictionary's equivalence function, to the value most recently stored under that key, and storing under one key never changes what other keys return. At most one value per equivalence class is kept: all keys whose values are equivalent return the very same object, the first one stored.",
  ["inputs", "histories"], "all sequences of assignments and reads, all equivalence functions",
  "No test exercises it.",
  ["structures.py"], [("key -> hash -> representative", "structures.py:HashDict.__setitem__, __getitem__")],
  [("dict_, reverse", "key -> class, class -> first representative", "HashDict")], ["values read"])
prop("S11", "Pooled mapping gives the serial results, one per record, whatever the mode",
  "Mapping a function over argument records gives exactly one result per record under the record's own key (its position if it has none), equal to calling the function with that record's arguments, and the same whether run serially, in a worker pool, or in a pool by chunks, on a fresh or a reused pool object. Serially or unchunked, a record whose call raises yields that exception under its own key without affecting the others, or raises it if so requested.",
  ["inputs", "configurations", "histories"], "all functions, all lists of records with distinct keys, all modes, all sequences of maps on one pool object",
  "No test exercises it.",
  ["structures.py"], [("record normalisation, dispatch, chunking, collection", "structures.py:MaybePool.map, apply, get, _chunkwrap, MaybeResult, map_into_pool")],
  [("results, chunked", "pending results by key; whether they are chunks", "MaybePool")], ["result dict"])
# ---------------------------------------------------------------- func
prop("F01", "Set helpers compute exactly the shared and unshared elements",
  "Intersecting any non-empty list of iterables gives exactly the elements present in all of them; the disjoint parts are, per iterable and in its own order, exactly its elements that are not present in all. The membership predicate over a non-empty collection of items is true of a container exactly when it contains all of the items (or, with `or` as combining operation, any of them).",
  ["inputs"], "all non-empty lists of finite iterables, all containers",
  "One fixed triple of inputs each.",
  ["func.py"], [("reduce over sets / memberships", "func.py:intersection, disjoint, are_in")], [], ["return value"])
prop("F02", "Call wrappers call the wrapped function exactly when and how they should",
  "The interaction guard never calls its function when told to be noninteractive and returns the default, and otherwise makes exactly one call with the given arguments and returns its result. An optional function passes results through, and on an ordinary exception calls its callback exactly once with it and returns None, while keyboard interrupts and other non-ordinary exceptions escape without a callback. Trigger, constant, splat, argument-limiting and greedy-map wrappers call the wrapped function exactly once per use (constants never) with exactly the documented arguments and return the documented value.",
  ["inputs", "fault_sequences"], "all functions (including ones that raise anything), all arguments, all defaults and callbacks",
  "Each wrapper is exercised with one or two well-behaved functions; the raising paths are not tested.",
  ["func.py"], [("wrappers", "func.py:catch_interaction, optionalize, triggerize, constant, splat, argstop, gmap, filtern, pass_parameters, is_it")], [], ["calls received", "return value or exception"])
# ---------------------------------------------------------------- dynamic
prop("D01", "Exception reports describe every traceback frame, aligned and in order",
  "A report of an exception has one entry per traceback frame, outermost first, in each of its line-number, name and file-name lists, so that the i-th entries describe the same frame, whatever the depth and wherever the frame's code comes from. It carries the exception itself or its type and text as requested, and a report of no exception is empty.",
  ["inputs"], "all exceptions with tracebacks of any depth, with or without resolvable modules",
  "One depth-1 or -2 traceback is looked at, only for its text.",
  ["dynamic.py"], [("traceback walk", "dynamic.py:exc_report")], [], ["report"])
prop("D02", "Dynamic functions record failures and move cleanly between states",
  "Calling a loaded dynamic function as optional returns the function's result or, on any ordinary exception, None, having added exactly one call-failure record and set the call-failure flag; calling it as required lets the exception out and records nothing, and successful calls record nothing. Loading an already loaded one is refused and changes nothing; unloading at any time returns it to the unloaded state with no errors or failure flags, after which a call reloads it from its source or is refused if loading on call is off.",
  ["inputs", "histories", "fault_sequences"], "all functions, arguments and exceptions, all sequences of load, unload, define, compile and call",
  "One optional dynamic function is called twice.",
  ["dynamic.py", "func.py"], [("state machine and optional call", "dynamic.py:Dynamic.load, unload, define, compile_source, __call__, dontcare, from_function")],
  [("code, func, errors, call_fail, compile_fail", "load state and failure record", "Dynamic")], ["return value or exception", "errors and flags"])
# ---------------------------------------------------------------- codex
prop("K01", "A shared-memory index always lists exactly the keys added and not removed",
  "After any sequence of additions and removals of string-representable non-empty keys, a shared index lists exactly the keys added and not since removed, each once, and finds each of them; adding a present key returns its existing position or is refused if asked, and adding or removing one key never loses, duplicates or misplaces another. Removing an absent key is refused and changes nothing, and every object attached to the same index name sees the same contents.",
  ["inputs", "histories"], "all sequences of add/remove/check/update by one process at a time, through any number of handles on one name, all keys",
  "Two keys are added once; removal (which moves another key into the gap) is never tested.",
  ["codex/implements.py", "codex/memutilz.py"], [("link structure + reverse hash map", "codex/implements.py:TagIndex._add, _delitem, check, update"), ("block primitives", "codex/memutilz.py:open_block, delete_block, exists_block")],
  [("length, key_i, name_h blocks", "count; position -> key; key -> position", "shared memory")], ["update()", "check()"])
prop("K02", "Metadata in a shared index stays attached to its own key",
  "After any sequence of additions, overwrites and removals, looking up a key in a metadata index returns exactly the metadata most recently stored for that key, whatever other keys were added or removed in between (removal relocates other entries), and its keys, values and items listings correspond entry by entry. Looking up an absent key raises KeyError.",
  ["inputs", "histories"], "all sequences of add/overwrite/remove by one process at a time, all keys, all JSON-stable metadata or none",
  "Metadata is stored for two keys and never moved or removed.",
  ["codex/implements.py", "codex/memutilz.py"], [("value blocks moved with keys", "codex/implements.py:MetaTagIndex.add, __delitem__, __getitem__, _enumerate")],
  [("val_i blocks", "position -> metadata", "shared memory")], ["__getitem__", "keys/values/items"])
prop("K03", "A notepad behaves as a dictionary in shared memory",
  "After any sequence of stores, overwrites and deletions, reading a key of a notepad gives (through any handle on the same name) an object equal to the one last stored there, missing or deleted keys raise KeyError or give the caller's default, and the listed keys are exactly those present. An operation on one key never changes another key or the notepad's own bookkeeping, keys that could collide with the bookkeeping are refused, and storing with overwriting forbidden leaves an existing value in place and raises KeyError.",
  ["inputs", "histories"], "all sequences of set/get/delete/iterate/clear by one process at a time, through any number of handles, all non-reserved keys (one that cannot name a block of shared memory is refused with some error and changes nothing), all serialisable values including None",
  "Two stores and two reads of distinct keys, never overwritten or deleted; no missing key is read.",
  ["codex/implements.py", "codex/codecs.py", "codex/memutilz.py"], [("address + mnemonic + index", "codex/implements.py:Notepad.__setitem__, __getitem__, __delitem__, get, AbstractNotepad.address"), ("memorize/remember", "codex/codecs.py:generic_mnemonic_factory")],
  [("value blocks and index", "prefix_key -> encoded value; set of keys", "shared memory")], ["reads through any handle"])
prop("K04", "Shared arrays come back with the same shape, type and contents",
  "After any sequence of array stores, overwrites (with any new size or type) and deletions, reading a key of a shared-array notepad gives an array with the shape, dtype and elements last stored there, through any handle on the same name; missing or deleted keys raise KeyError or give the default, and clearing removes every key. Operations on one key never affect another; storing with overwriting forbidden leaves an existing array in place and raises KeyError, and stores a new key normally.",
  ["inputs", "histories"], "all sequences of set/get/delete/clear by one process at a time, all non-empty plain-dtype arrays, all non-reserved keys",
  "Two arrays are stored once and read once; overwriting, deletion and forbidden overwriting are not tested.",
  ["codex/implements.py", "codex/codecs.py", "codex/memutilz.py"], [("array block + metadata index", "codex/implements.py:GridPaper.__setitem__, __getitem__, __delitem__, clear"), ("array mnemonic", "codex/codecs.py:numpy_mnemonic_factory")],
  [("array blocks, metadata", "prefix_key -> raw elements; key -> dtype/shape", "shared memory")], ["arrays read"])
prop("K05", "A sticky note read by anyone is the object last stuck there",
  "A note's address read through any handle gives an object equal to the one most recently stuck at that address, however often and with whatever sizes it was re-stuck (a handle that has already read may return its cached object unless asked to reread); an address that holds nothing, or whose note was pulled, reads as None. Notes at different addresses do not affect each other.",
  ["inputs", "histories"], "all sequences of note/stick/read/pull on any addresses by one process at a time, all serialisable objects",
  "Each address is stuck once and read once.",
  ["codex/implements.py", "codex/memutilz.py"], [("encode into block / decode from block", "codex/implements.py:Sticky.note, stick, read, close"), ("block primitives", "codex/memutilz.py:open_block")], [], ["read()"])
prop("K06", "Codecs are inverse pairs and mnemonics return what was memorised",
  "For every value a codec accepts (JSON-stable values, Python literals, picklable objects), decoding its encoding gives an equal value of the same type. Memorising a value at an address and remembering it returns the decoded encoding of the value memorised last; forbidding overwriting refuses an occupied address and leaves it untouched, and other addresses are never affected.",
  ["inputs", "histories"], "all values in each codec's domain, all addresses, all sequences of memorise/remember",
  "Codecs are only exercised with two small dicts through other objects.",
  ["codex/codecs.py", "codex/memutilz.py"], [("codec pairs", "codex/codecs.py:json_codec_factory, ast_codec_factory, pickle_codec_factory"), ("mnemonics", "codex/codecs.py:generic_mnemonic_factory; codex/memutilz.py:open_block, fetch_block_bytes")], [], ["decoded values"])
prop("K07", "The shared lock admits one holder at a time",
  "Of any number of processes contending for the same shared lock, at most one is between acquiring and releasing it at any moment, and every waiting process eventually acquires it once the others release it.",
  ["schedules"], "all interleavings of any number of processes acquiring and releasing one lock",
  "No test contends for a lock; the claim is about every interleaving.",
  ["codex/implements.py"], [("ticket numbers and lock blocks", "codex/implements.py:SlidingLock")], [], ["overlap of critical sections"])
# ---------------------------------------------------------------- tracker
prop("T01", "A tracker's history is a complete, ordered, numbered record",
  "Each tracked call appends exactly one record to the history, holding the target's name (its text form if dir() of it lists no __name__), the caller's name and line, and a count that goes up by one per record from one; explicitly passed metadata overrides metadata set on the tracker, which overrides the automatic fields, and earlier records never change. Clearing empties the history and restarts the count, and the tracker's log always shows this same history, before and after any dump or clear.",
  ["inputs", "histories"], "all sequences of track, set_metadata, clear and dump with any targets and metadata",
  "Two entries of one history are looked at.",
  ["tracker.py"], [("record building", "tracker.py:Tracker.track, set_metadata"), ("clear, dump", "tracker.py:Tracker.clear, dump")],
  [("history, counter, metadata, log", "records; next count; default fields; dumped view", "Tracker")], ["history", "log"])
prop("T02", "A tracker's log file is always a complete JSON list of its dumps",
  "After any sequence of dumps the log file is a valid JSON array with one element per unpaused dump since it was created or cleared, in order, each equal to the log at the time of that dump; earlier elements are preserved byte for byte. A paused tracker's dump writes nothing, a dump that cannot be serialised leaves the file as it was, and clearing removes the file.",
  ["inputs", "histories", "fault_sequences"], "all sequences of track, pause, dump and clear, all metadata whether or not serialisable",
  "No test dumps.",
  ["tracker.py"], [("in-place append to the array", "tracker.py:Tracker.dump"), ("removal", "tracker.py:Tracker.clear")], [("log file", "JSON array of dumps", "Tracker.outpath")], ["bytes of the log file"])
# ---------------------------------------------------------------- mosaic
prop("M01", "Reading between bounds returns exactly the rows in the half-open range",
  "Reading the rows of a parquet file whose field lies between two bounds returns exactly the rows with lower bound <= value < upper bound, each once and in file order, whichever row groups they are in; row groups are skipped only if they hold no such row. If no row group can hold such a row it returns nothing.",
  ["inputs"], "all files and row-group layouts with truthful min/max statistics, all bounds, any value positions relative to group boundaries",
  "No test exercises it.",
  ["mosaic.py"], [("statistics pruning + filters", "mosaic.py:read_between, parquet_metadata_records")], [], ["returned table"])
prop("M02", "Chunked sorting writes every row exactly once, in order",
  "Sorting a parquet file in chunks writes an output containing every row of the input whose sort value is neither null nor NaN exactly once, ordered by the sort column in the requested direction across the whole file, whatever the number of chunks (at least two), value distribution or row-group layout. The input file is not modified.",
  ["inputs", "configurations"], "all numeric sort columns with minimum/maximum statistics and finite values exactly representable as floats, all numbers of chunks from two, both directions, all row-group layouts",
  "No test exercises it.",
  ["mosaic.py"], [("windows partition the value range", "mosaic.py:sort_chunked"), ("per-window read and sort", "mosaic.py:read_between")], [], ["output file"])
# ---------------------------------------------------------------- scrape
prop("X01", "Label scraping finds, types and bounds text without failing",
  "Scraping a text for patterns gives for each field the first match's captured text as a Python literal when it is one, the captured text itself when it is not (whatever it contains), and None when there is no match; fields do not affect each other, and a supplemental function's fields override them. Trimming a label returns the decoded text up to and including the first PVL end statement, else up to the first run of null bytes, else the whole head or an error if so requested, never looking beyond the size limit.",
  ["inputs"], "all texts, all patterns with one capture group, all files and size limits",
  "No test exercises it.",
  ["scrape.py"], [("scraper closure", "scrape.py:make_scraper, scrape_patterns, bulk_scrape_metadata"), ("trimming", "scrape.py:trim_label, head_file")], [], ["return value"])
# ---------------------------------------------------------------- pivot
prop("P01", "Downcasting keeps every value within the stated tolerances",
  "Downcasting a real or integer array returns an array of the same length in which every finite element differs from the original by no more than the absolute tolerance and, relative to itself, the relative tolerance (integers exactly), with non-finite elements still non-finite; the reported errors bound the actual ones. Integer input gets the smallest integer type that holds all its values, unsigned exactly when none is negative, and the input array is never modified.",
  ["inputs", "configurations"], "all non-empty numeric arrays of supported dtypes, all non-negative tolerances, numpy or pandas output without nullable integers",
  "No test exercises it.",
  ["pivot.py"], [("dtype ladder with error checks", "pivot.py:downcast, check_in_dtype_bounds, _downcast_int_array, _maybeseries")], [], ["returned record"])
prop("P02", "Frame helpers never lose or alter data they are not asked to drop",
  "Dropping duplicate columns drops only columns equal in both name and value and refuses differing ones; extracting constants reports exactly the constant columns (or rows) with their values and leaves every other cell in place; squeezing, splitting, unpacking and duplicating frames keep every row's data and labels as documented.",
  ["inputs"], "all data frames with at least one row and single values as cells (lists and tuples where cells are unpacked), labels possibly repeated except the unpacked column's; rows whose constancy is asked for hold one type; a repeated column that has missing cells may also be refused",
  "Two helpers are exercised on one CSV fixture.",
  ["pivot.py"], [("helpers", "pivot.py:check_and_drop_duplicate_columns, extract_constants, split_on, squeeze, unpack, dupe_df_block")], [], ["returned frames"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
