"""Writes properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=False):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": n, "meaning": m} for n, m in state], "mechanism": [{"name": mech, "where": files[0]}], "observe_at": [observe], "hook_needed": None}})

p("P01", "Saved data loads back identical after any save history",
  "Loading a saved Dataset, Struct (nested or flat, one file or a directory) or array returns what was saved there last: the same names in the same order, types, values, categories, time zones and labels, whatever was saved, overwritten or appended before, however the path is spelled, compressed or not, and in whatever order the file system lists the directory. "
  "Saving never changes the object in memory, and neither saving nor loading leaves a file open.",
  ["histories", "inputs", "configurations"], "every sequence of saves, overwrites, section appends and loads over every supported column type, save option and directory listing order",
  "the tests save one object into a fresh path and load it once, on one file system's listing order",
  ["riptable/rt_sds.py", "riptable/rt_struct.py", "riptable/rt_dataset.py", "riptable/rt_categorical.py", "riptable/rt_datetime.py", "riptable/rt_meta.py"],
  "column arrays plus JSON meta data and (name, flag) tuples per file; nested containers in sibling files named with '!' and an order file", "rt.save_sds / rt.load_sds and the save/load methods",
  [("meta tuples", "names, order and roles of the arrays in a file"), ("_root.sds", "order of a directory's top level")])

p("P02", "A killed or failing save harms nothing else on disk",
  "When the process dies or the disk fails at any point during a save, every item saved earlier that the save was not overwriting still loads unchanged, and a save that returned normally before is never lost. "
  "The item being written afterwards loads as the old version, the new version, or raises an error, and saving it again restores it completely.",
  ["crash_points", "fault_sequences", "histories"], "every file-system call of every save (single file, struct directory, appended section, item added to a directory), crash before, within or after it, or an error from it",
  "no test interrupts a save; the write sequence has tens of crash points per save and they differ per container shape",
  ["riptable/rt_sds.py"], "save into place: header, names, meta data, columns, then headers; a struct directory is a sequence of such files", "directory content after the fault, re-read by a fresh process",
  [("files of the target", "which of them have been rewritten so far")])

p("P03", "Loads under I/O faults fail cleanly or return the right data",
  "When opening, listing or reading a file fails during any kind of load or inspection of saved data, the call either raises or returns exactly the right data; it never silently drops an item or returns an item from another file (a stacked load may leave out an unreadable file only with a warning that names it, and never when existence is required). "
  "Nothing on disk changes, no file stays open, process-wide settings are unchanged, and the same call succeeds once the fault is gone.",
  ["fault_sequences", "inputs"], "every file-system call of a load (single file, directory, list of files, stacked, info) failing with any error or a short read of header, name or meta data",
  "the tests never see a failing system call; the only negative cases are missing files",
  ["riptable/rt_sds.py"], "multi-step load: header probe, directory listing, batched file reads, reassembly by position", "rt.load_sds / sds_info / sds_tree results, open descriptors, later loads",
  [("result position to file", "reassembly of a directory or list load relies on position")])

p("P04", "Stacked load and file concatenation equal row-wise concatenation",
  "Loading a list of files stacked, or concatenating files into one, gives for each column the rows of the existing files in the listed order, with missing columns filled with invalid values, categories merged by value, and partition boundaries where the files meet; column selection and row filters give the same rows as selecting afterwards. "
  "Files that do not exist are skipped with the others intact, or the load raises when existence is required; the source files never change.",
  ["histories", "inputs", "fault_sequences"], "every list of files with varying columns, categories, lengths (zero included), sections, repeated and missing or vanishing files, with any subset of columns and any filter",
  "tests stack a few files with equal columns; disappearance between check and open, mixed schemas with filters and repeats are not sampled",
  ["riptable/rt_sds.py", "riptable/rt_pdataset.py", "riptable/rt_hstack.py"], "file-level stacking with cutoffs per file, re-basing of categoricals, gap filling", "the stacked Dataset, its partitions, and the output of the concatenation",
  [("cutoffs", "row boundaries per file"), ("unique cutoffs", "category boundaries per file")])

p("P05", "Reorganising saved data never loses an item",
  "Flattening a saved directory tree, appending sections to a file and concatenating files keep every stored item: after success all items load equal to before at their new names, and if the process dies or a file operation fails at any point, every item still exists intact either at its old or at its new place. "
  "A section append interrupted anywhere leaves the sections already in the file readable or the file raising, never altered rows.",
  ["crash_points", "fault_sequences", "histories"], "every directory tree shape and every file-system call of the reorganisation, with crash or error at it",
  "tests flatten one tree without faults; the rename and delete sequence is never interrupted",
  ["riptable/rt_sds.py"], "rename of nested files into the parent, rewrite of the root file, removal of emptied directories; in-place section directory update", "set of items readable on disk",
  [("files in transit", "renamed, not yet listed in the root")])

p("P06", "Shared-memory items are isolated by share name",
  "An item saved under a share name loads back identical by that share and item name, in the saving and in other processes, is listed only under that share, an object already loaded from a share keeps its contents whatever happens to the share later, and saving, listing or clearing one share never changes, lists or removes items of another, even when one share or item name is a prefix of the other. "
  "Clearing a share removes exactly its items, and a save, load or clear that fails or whose process dies leaves other items as they were; a failing listing is reported, not taken for an empty share.",
  ["histories", "fault_sequences"], "every sequence of saves, overwrites, loads, listings and clears over several share names (including prefixes of one another), by several processes, with open, mapping, removal and listing failures of the shared segments and process deaths",
  "tests use one or two fixed share names without interleaving or failures",
  ["riptable/rt_sharedmemory.py", "riptable/rt_sds.py", "riptable/rt_struct.py"], "segment names composed of a global prefix, share name, separator and item name; listing by file name prefix", "rt.load_sds(share=), shared-memory listing and clearing",
  [("segment name", "share and item packed into one file name")])

p("P07", "Parallel kernels give one result for every work split and interleaving",
  "Every operation that splits its work over threads in Python-level parallel kernels (string matching and searching, joins and as-of joins, categorical and group-by kernels, array scans) returns the same result, equal to the one-thread result, for every number of workers, every split of the rows and every interleaving of the workers. "
  "No worker reads or writes another worker's part of the result or shared scratch space.",
  ["schedules", "inputs", "configurations"], "every number of workers, chunk boundaries and interleaving of worker steps, over all inputs of these operations",
  "tests run whatever schedule one machine happens to produce, mostly below the parallel thresholds",
  ["riptable/rt_str.py", "riptable/rt_merge.py", "riptable/rt_merge_asof.py", "riptable/rt_fastarray.py", "riptable/rt_categorical.py", "riptable/rt_groupbynumba.py"], "numba prange loops; explicit per-core row or bin ranges", "public operations built on these kernels",
  [("per-worker ranges", "rows or bins a worker owns")])

p("P08", "Concurrent threads get the results they would get alone",
  "Threads that use riptable at the same time on their own objects, or that only read a shared object (including the first reads that fill its cached grouping, sort order or derived data), each get exactly the result they would get running alone, without errors or deadlock. "
  "After they finish, the shared object and the process-wide settings are as if the calls had run one after another.",
  ["schedules", "programs"], "every interleaving of the Python steps of two or more threads running any mix of grouping, categorical, sorting, dataset, string, display and save/load calls",
  "the tests are single-threaded",
  ["riptable/rt_grouping.py", "riptable/rt_categorical.py", "riptable/Utils/common.py", "riptable/rt_sort_cache.py", "riptable/rt_struct.py", "riptable/rt_sds.py", "riptable/rt_str.py"], "lazily computed attributes, module-level mode flags, a lock-protected weak cache", "return values of the calls in each thread",
  [("lazy caches", "attributes filled on first read"), ("module globals", "mode flags and counters")])

p("P09", "A call that fails midway leaves its inputs intact and can be retried",
  "When any internal step of an operation fails (out of memory, an error in the native engine, an exception in a user function), the exception reaches the caller and the objects the call was given keep their contents, shape and metadata, except that an operation documented to modify its target may have completed whole columns. "
  "Every container stays well formed (all columns of equal length, names and order consistent), and repeating the call without the failure gives the result it would have given at first.",
  ["fault_sequences", "histories"], "every native call made by every exercised operation, failing at its first to last occurrence, singly or repeatedly",
  "the tests never make the engine fail; failure points are inside operations",
  ["riptable/rt_dataset.py", "riptable/rt_struct.py", "riptable/rt_grouping.py", "riptable/rt_categorical.py", "riptable/rt_hstack.py", "riptable/rt_itemcontainer.py", "riptable/rt_accum2.py", "riptable/rt_merge.py"], "multi-step operations on mutable containers and caches around native calls", "the exception, the input objects, and a retry",
  [("partially updated containers", "state between two native calls")])

p("P10", "Containers keep their contract over any history of edits",
  "Over any sequence of edits (adding, replacing, renaming, deleting, reordering columns, row filtering, sorting, appending, in-place assignment, copying, locking), a Dataset or Struct behaves like an ordered map from names to values: a Dataset's columns always have equal length, names stay unique and in the expected order, and reads by name, position, attribute and iteration agree. "
  "An edit that is rejected (wrong length, invalid name, locked container) changes nothing, and a copy never changes when the original is edited, nor the original when the copy is.",
  ["histories", "inputs"], "every sequence of edits, accepted and rejected, on Datasets and Structs and their copies, of any column types",
  "tests exercise single edits from fresh objects; state left by earlier or rejected edits is not sampled",
  ["riptable/rt_struct.py", "riptable/rt_dataset.py", "riptable/rt_itemcontainer.py"], "ordered item container with separate name, attribute and row-count state", "the container's public reads after every step",
  [("_nrows", "row count of a Dataset"), ("item container", "ordered items and attributes"), ("lock", "whether edits are rejected")])

p("P11", "Process-wide settings survive every call",
  "No call leaves process-wide state changed other than the setting it is documented to change: recycling, threading, fast-ufunc and ledger modes, thread wake-up count, display options, save/load verbosity, standard output, numpy error state, random state, warnings filters, working directory and open files are the same after a call as before, whether it returns, raises, or fails inside. "
  "A documented setting change takes effect, is readable back, and setting it back restores the previous behaviour.",
  ["fault_sequences", "histories", "configurations"], "every exercised operation from every combination of settings, with a failure at any native call, file operation or user callback within it",
  "tests check results, not ambient state, and never fail an operation in the middle",
  ["riptable/rt_hstack.py", "riptable/rt_sds.py", "riptable/rt_ledger.py", "riptable/rt_fastarray.py", "riptable/Utils/display_options.py", "riptable/rt_str.py", "riptable/rt_struct.py"], "save-and-restore of global modes around work", "the settings' public getters before and after",
  [("global modes", "recycle, threading, ufunc, ledger, wake-up, display")])

p("P12", "Cached derived data never goes stale",
  "Results computed from cached derived data (group positions and counts, expanded and merged categories, sort orders of sorted views) always equal the results computed from scratch on the current data, after any history of in-place changes, filtered and unfiltered operations, category edits, copies, garbage collection and clock behaviour. "
  "Results that were returned earlier never change because of later calls.",
  ["histories", "schedules", "fault_sequences"], "every sequence of reads, grouped operations with and without filters, category and value edits, copies, slices and object deaths, under any clock or counter collision",
  "tests call each operation on a fresh object, so caches are always cold or warm in one way",
  ["riptable/rt_grouping.py", "riptable/rt_categorical.py", "riptable/rt_sort_cache.py", "riptable/rt_struct.py", "riptable/rt_groupby.py", "riptable/Utils/common.py"], "caches keyed on object state, flags and a time-stamp counter, cleared by explicit dirty marks", "results of grouped operations and sorted reads versus a freshly built equal object",
  [("grouping caches", "packed group arrays and flags"), ("sort cache", "sort index per container and key columns"), ("weak cache", "derived data while someone holds it")])

p("P13", "Clock reads, timers and ledgers report exactly what happened",
  "Current-time values equal the clock at the call, in order, whatever the clock does; elapsed-time reports equal the clock difference between their start and end calls (of the same timer family), also across clock jumps and nested or repeated use, and recording the operations of a program neither changes its results nor loses, duplicates or reorders recorded calls. "
  "A failure of the timed or recorded code leaves timers and recording usable.",
  ["fault_sequences", "histories", "schedules"], "every sequence of timer, ledger and current-time calls under any clock behaviour (steps, jumps back and forth, stalls) with failing operations in between",
  "tests cannot control the clock, so they only check that something is printed",
  ["riptable/rt_timers.py", "riptable/rt_ledger.py", "riptable/rt_datetime.py"], "module-level start and end stamps read from the native clock; a ledger wrapped around every recorded native call", "returned times, printed or logged elapsed values, ledger contents",
  [("start/end stamps", "one pair per timer family"), ("ledger totals and list", "recorded calls")])

p("P14", "Seeded sampling is reproducible and isolated",
  "Sampling with a given seed from equal data returns the same rows every time, in any process, after any history of other calls, and never reads or changes the global random state; the sample has the requested size (at most the rows available), no repeated rows, in the original row order, and only rows the filter admits, each of which can be selected; a filter given as row numbers has none repeated. "
  "Sampling without a seed has the same shape guarantees and does not affect seeded results.",
  ["histories", "inputs", "configurations"], "every data size, filter, sample size and seed, after any history of other random or sampling calls and from any global random state",
  "tests check a few seeds once in one process",
  ["riptable/rt_utils.py", "riptable/rt_dataset.py", "riptable/rt_fastarray.py"], "a private generator built from the seed, selection without replacement, sorted", "the sampled rows and the global random state")

p("P15", "Text loading does not depend on how the file is delivered",
  "Loading delimited text into a Dataset gives the same columns, types and values however the text reaches it (short reads, chunk boundaries anywhere, interrupted calls, any buffering), and equal to parsing the whole text at once. "
  "A read error, a failing converter or undecodable text raises instead of returning partial data, a row with too few fields raises or (with the pandas reader) gives missing values in exactly the absent fields, and every file the loader opened is closed in all cases.",
  ["fault_sequences", "inputs"], "every text of the supported dialect, every split of the delivery, and an error at every read",
  "tests load small well-formed files delivered in one read",
  ["riptable/rt_csv.py"], "reader over an opened file, column accumulation, per-column conversion", "the loaded Dataset, the raised error, open descriptors")

p("P16", "Saving and loading display settings is faithful and contained",
  "Display settings saved to a file load back equal, in any process and after any history of changes, and resetting restores the defaults; settings not in the file keep their value. "
  "When saving or loading fails at any point (missing, unreadable, truncated or unwritable file, full disk, crash), the error is reported or the defaults stay in use, the settings in memory are never left half-changed, and a later save and load works.",
  ["fault_sequences", "crash_points", "histories"], "every sequence of setting changes, saves, loads and resets with a file-system fault or crash at any call",
  "tests save and load once on a healthy disk",
  ["riptable/Utils/display_options.py"], "class-level option attributes written as JSON", "the options' values and the file on disk",
  [("option attributes", "current display settings")])

p("P17", "The same calls give the same results in every process",
  "A program's results (values, names, order of columns, groups and categories, and what it saves to disk) depend only on its inputs and documented settings: they are the same in every process, whatever the process's hash seed, the contents of uninitialised or recycled memory, object addresses, the time of day, the time zone and locale of the machine, the working directory or the order in which a directory is listed.",
  ["configurations", "histories", "inputs"], "every exercised operation under every combination of hash seed, memory contents, recycling mode, clock, time zone, locale, working directory and directory order",
  "tests run in one process environment at a time and compare with results computed in the same process",
  ["riptable/rt_merge.py", "riptable/rt_numpy.py", "riptable/rt_fastarray.py", "riptable/rt_grouping.py", "riptable/rt_sds.py", "riptable/rt_dataset.py"], "hash-ordered collections, empty-array allocation, recycled buffers, clock and environment reads", "results of the same seeded program in processes with different environments",
  [("set iteration order", "order of names taken from a set"), ("uninitialised arrays", "arrays filled after allocation")])

NA = [
 ("Q01", "Group-by aggregates equal the per-group computation", "For every grouping and aggregate function the result per group equals applying the function to the rows of that group.", ["inputs"], ["riptable/rt_groupbyops.py", "riptable/rt_groupby.py", "riptable/rt_accum2.py"]),
 ("Q02", "Joins return exactly the matching rows", "Every join kind returns, for all key columns and modes, exactly the row pairs the relational definition gives, in the documented order.", ["inputs"], ["riptable/rt_merge.py", "riptable/rt_merge_asof.py"]),
 ("Q03", "Date and time arithmetic and time-zone conversion are exact", "Conversions between instants, dates and civil times round-trip and agree with the time-zone rules for all instants.", ["inputs"], ["riptable/rt_datetime.py", "riptable/rt_timezone.py"]),
 ("Q04", "Invalid values propagate through every operation", "Operations on arrays with invalid (sentinel or NaN) elements yield invalid or skip them as documented, for all types.", ["inputs"], ["riptable/rt_fastarray.py", "riptable/rt_numpy.py"]),
 ("Q05", "Array operations agree with numpy", "For non-sentinel values, array operations return what numpy returns.", ["inputs"], ["riptable/rt_fastarray.py", "riptable/rt_numpy.py"]),
 ("Q06", "String operations follow their per-element definition", "Every vectorised string function equals the per-element Python definition.", ["inputs"], ["riptable/rt_str.py"]),
 ("Q07", "Display shows the data it is given", "Rendering shows the right cells, never raises, and never changes data.", ["inputs"], ["riptable/rt_display.py"]),
 ("Q08", "Native engine results do not depend on its worker threads", "Every native operation returns the same result for every number of native worker threads and every schedule of them.", ["schedules", "inputs"], ["riptable/rt_fastarray.py"]),
]
for i, t, s, over, files in NA:
    p(i, t, s, over, "all inputs", "tests sample a few inputs", files, "pure computation", "return values")
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
