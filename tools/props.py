"""
The property list, in one place.  Run to rewrite properties.jsonl and MANIFEST.json:

    python3 tools/props.py
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

W = "mabel/data/writers/"
R = "mabel/data/readers/"
I = "mabel/data/internals/"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, level="exploration"):
    P.append(
        dict(
            id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
            mechanism=mechanism, technique=technique, note=note, level=level,
        )
    )


prop(
    "C01", "Records appended to a writer are read back exactly once, unaltered",
    "For every storable sequence of records, every format (jsonl, zstd, parquet, flat, text), blob size, date, dataset name and partition "
    "template, what a Writer or BatchWriter accepted and finalised is read back by a Reader of the same dataset, dates and partitions as "
    "exactly the same records: none lost, none repeated, no value or type changed (flat: the flattened record; text: the same lines). "
    "Writers for different dates or datasets never see each other's records, and a caller changing its record after append has no effect.",
    ["inputs", "histories", "configurations"],
    "all record sequences x format x blob size x date x partition template x dataset name x writer class",
    "tests write a few uniform records in one or two formats at the default blob size; the guarantee is over every value, size and roll-over point",
    [W + "writer.py", W + "batch_writer.py", W + "internals/blob_writer.py", W + "internals/base_inner_writer.py", R + "reader.py"],
    [("buffer and roll-over", W + "internals/blob_writer.py:BlobWriter.text_append/arrow_append/commit"),
     ("path templates", "mabel/utils/paths.py:date_format/build_path"),
     ("decoding", R + "internals/parallel_reader.py:ParallelReader.__call__")],
    "runtime monitoring: recorded write/read histories at the storage boundary, bag-equality oracle with an independent decoder",
    "held on generated histories only; JSON formats over JSON values, parquet over declared types other than STRUCT",
)
prop(
    "C02", "Stream writing is exactly-once under concurrency, eviction and roll-over",
    "Whatever the interleaving of concurrent appends, the background pool attendant and finalize, every record a StreamWriter accepted before "
    "finalize was called is in storage exactly once per destination once finalize has returned, and no stored blob is lost, torn, or overwritten. "
    "While writing goes on, streams idle past the timeout and the least recently used ones over capacity are stored, and no others. Appends and "
    "finalize complete: neither a small pool, an idle timeout of zero, slow storage nor several StreamWriters in one process blocks them for ever.",
    ["schedules", "histories", "configurations"],
    "all interleavings of appenders, attendant and finalize x pool capacity x idle timeout x blob size x storage latency",
    "tests append from one thread with generous timeouts, eviction hardly ever races with an append",
    [W + "stream_writer.py", W + "internals/writer_pool.py", W + "internals/blob_writer.py"],
    [("module lock shared by append, eviction and finalize", W + "stream_writer.py:lock"),
     ("commit before removal", W + "internals/writer_pool.py:remove_writer"),
     ("attendant thread", W + "stream_writer.py:pool_attendant")],
    "runtime monitoring: multi-threaded stress with injected storage and scheduler delays, exactly-once oracle over uniquely identified records",
    "interleavings are sampled (switch interval, injected delays), not enumerated",
)
prop(
    "C03", "Stream records are stored in exactly the folders their values and schema say",
    "A stream record is stored once in each folder named by the combinations of its placeholder values (lists are one folder per distinct "
    "value, missing or empty is None, values are reduced to letters, digits and whitespace), under the writer's date. A dataset named BACKOUT is refused by every writer. A record which fails "
    "the schema is stored in BACKOUT under the same date and values and in no other place, is never returned by a Reader, and doesn't affect "
    "the other records; conforming records are never in BACKOUT.",
    ["inputs", "configurations", "histories"],
    "all records (values, lists, missing) x dataset/partition templates x schemas x formats",
    "tests use one template with clean string values",
    [W + "stream_writer.py", "mabel/utils/paths.py", "mabel/utils/text.py", R + "internals/base_inner_reader.py"],
    [("placeholder product", W + "stream_writer.py:append"), ("dead letter routing", W + "stream_writer.py:append"),
     ("BACKOUT exclusion", R + "internals/base_inner_reader.py:get_list_of_blobs")],
    "runtime monitoring: storage-boundary log checked against an independent routing model",
    "routing model covers scalar and list values; folder names compared after the documented sanitisation",
)
prop(
    "C04", "A batch is visible to readers all or nothing, at every crash point",
    "A Reader returns either all the records of a batch frame or none of them: at every moment of writing (after each storage operation, "
    "including a crash there) it returns exactly the newest complete, non-ignored frame of each partition folder, and a frame is complete "
    "only once all of its blobs are stored. finalize with has_failure, now or earlier, never completes a frame; a frame with no "
    "records is completed only with always_complete, finalize returns -1 exactly when the frame wasn't completed, and frames of other dates, folders or lookalike names don't interfere.",
    ["crash_points", "histories", "configurations"],
    "all crash points between storage operations x sequences of frames (complete, failed, ignored, empty) x partitions",
    "tests read static folders of prepared frames and never stop a writer part way",
    [W + "batch_writer.py", R + "internals/base_inner_reader.py"],
    [("completion flag written last", W + "batch_writer.py:finalize"), ("frame selection", R + "internals/base_inner_reader.py:get_list_of_blobs")],
    "runtime monitoring: crash injected at every storage operation of generated frame histories, reader checked against a frame model",
    "crash = the process stops between storage operations; a single put is atomic",
    level="fault_enumeration",
)
prop(
    "C05", "Writers and BatchWriters only store records which conform",
    "A record which breaks the declared schema or the set of expectations is rejected by a Writer's or BatchWriter's append with an error and leaves no trace: it is not "
    "stored, not counted, and the records before and after it are stored as if it had never been offered. A conforming record is never "
    "rejected; a missing schema, or parquet without a schema, is refused at construction, before anything is stored.",
    ["inputs", "histories", "configurations"],
    "all sequences of conforming and violating records x schemas x expectations x formats",
    "tests try a handful of records against one schema",
    [W + "writer.py", W + "batch_writer.py", "mabel/data/validator/__init__.py"],
    [("validation before buffering", W + "writer.py:append"), ("schema loading", "mabel/data/validator/__init__.py:schema_loader")],
    "runtime monitoring: generated histories mixing valid and single-fault records, oracle from the generator's own labels",
    "types as orso defines them (VARCHAR, INTEGER, BOOLEAN, DOUBLE, TIMESTAMP, DATE, ARRAY, BLOB) and the data_expectations library's catalogue sample",
)
prop(
    "C06", "A storage failure is never silent and never corrupts what was already stored",
    "If storing a blob fails, at any storage operation, the caller of append or finalize gets an error or the records are still stored by a "
    "later successful commit; a write reported as successful (finalize returned without error) holds every accepted record, and a batch "
    "which lost records is never marked complete. A failure in one stream doesn't lose or duplicate the records of another, and blobs "
    "already stored aren't altered.",
    ["fault_sequences", "histories"],
    "all positions and runs of failing storage operations x writer class x format",
    "the tests' storage never fails",
    [W + "internals/blob_writer.py", W + "stream_writer.py", W + "internals/writer_pool.py", W + "batch_writer.py", "mabel/adapters/disk/disk_writer.py"],
    [("errors propagate from commit", W + "internals/blob_writer.py:commit"), ("eviction keeps failed writers", W + "stream_writer.py:_evict"),
     ("flag after commit", W + "batch_writer.py:finalize")],
    "runtime monitoring: fault injection at each storage operation in turn, conservation oracle (stored + reported = accepted)",
    "single faults enumerated for each history, multi-fault runs sampled",
    level="fault_enumeration",
)
prop(
    "C07", "Blob names never collide and blobs respect the size limit",
    "No committed blob ever overwrites another, for any number of writers, threads, or processes writing the same dataset and however coarse or "
    "still the clock. No data blob is empty; parquet blobs roll over long before they're many times the blob size; a text-based blob's payload never exceeds the blob size by more than one record, a new "
    "blob is only started once the limit is passed, and a record is never split across blobs.",
    ["schedules", "histories", "configurations"],
    "all commit rates, clocks, concurrent writers, blob sizes and record sizes",
    "tests never freeze the clock or write from many writers at once",
    [W + "internals/base_inner_writer.py", W + "internals/blob_writer.py"],
    [("unique blob name", W + "internals/base_inner_writer.py:_build_path"), ("size test", W + "internals/blob_writer.py:text_append")],
    "runtime monitoring: storage log under frozen clocks, threads and forked processes; overwrite and size monitors",
    "process-level uniqueness is checked on one machine",
)
prop(
    "C08", "A Reader returns exactly the data of the dates asked for, in a stable order",
    "For every date range, partition template and dataset layout, a Reader returns each record stored for a date in the range exactly once "
    "and nothing from any other date, dataset or lookalike folder; start and end may be given in either order, as dates, datetimes or strings, and default to today. "
    "The order is deterministic: blobs by name, records in blob order. A range with nothing to read raises DataNotFoundError.",
    ["inputs", "configurations"],
    "all date ranges (month/year/leap boundaries, reversed) x partition templates x layouts x date representations",
    "tests read one or two fixed days",
    [R + "reader.py", R + "internals/base_inner_reader.py", "mabel/utils/dates.py", "mabel/utils/paths.py"],
    [("date cycle", "mabel/utils/dates.py:date_range"), ("visited paths", R + "internals/base_inner_reader.py:get_list_of_blobs"),
     ("path building", "mabel/utils/paths.py:build_path")],
    "runtime monitoring: reads over generated layouts compared with a model of which blobs belong to which dates",
    "hour-level templates are read with explicit datetimes",
)
prop(
    "C09", "One by_ partitioning is read, and partition_filter only prunes",
    "When a date folder holds several by_ partitionings only the last in name order is read, so no record is read twice; within it each "
    "partition value uses its own newest complete frame. A partition_filter on an available partitioning reads exactly the records of "
    "that value; one on an unavailable partitioning changes nothing, and operators other than equals are refused.",
    ["inputs", "configurations"],
    "all layouts of by_ folders, values and frames x partition filters",
    "tests have two prepared folders and one filter",
    [R + "internals/base_inner_reader.py"],
    [("partitioning choice and filter", R + "internals/base_inner_reader.py:get_list_of_blobs")],
    "runtime monitoring: generated layouts, reader output compared with a layout model",
    "layouts follow the writer's naming by_<field>/<field>=<value>",
)
prop(
    "C10", "Stopping at a cursor and resuming reads every record exactly once",
    "For every dataset and every sequence of stops and resumes, the records read before each stop plus those read by a Reader resumed with "
    "the cursor (taken as a dictionary or its JSON string) are exactly the records of one uninterrupted read, in the same order. This holds with filters and selects, "
    "at blob boundaries, before the first and after the last record, and when later-sorting blobs are appended "
    "meanwhile; a malformed cursor raises InvalidCursor, it is never read as a fresh start.",
    ["histories", "inputs"],
    "all datasets x all stop positions x chains of resumes x appended blobs",
    "tests stop once in the middle of one dataset",
    [R + "internals/cursor.py", R + "reader.py", I + "dictset.py"],
    [("cursor state", R + "internals/cursor.py:Cursor"), ("advance with each record", R + "reader.py:_create_line_reader")],
    "runtime monitoring: reads interrupted at every position and resumed in chains, concatenation oracle",
    "each resume is made with the same other parameters, as documented",
)
prop(
    "C11", "Multiprocess reads return what serial reads return, and finish",
    "With multiprocess set a Reader returns the same multiset of records, with the same values, as a serial read with the same filters and "
    "select, for every number and size of blobs, including more blobs than workers, empty, filtered-out and corrupt blobs. "
    "The read always finishes, also when abandoned part way, and leaves no worker processes behind.",
    ["schedules", "inputs", "configurations"],
    "all blob counts/sizes and worker schedules",
    "tests compare a count on one dataset",
    [R + "internals/multiprocess_wrapper.py", R + "reader.py"],
    [("queues and termination", R + "internals/multiprocess_wrapper.py:processed_reader"), ("serialisation", R + "internals/multiprocess_wrapper.py:fix_dict")],
    "runtime monitoring: multiprocess reads with injected delays against serial reads, bounded-progress monitor and process accounting",
    "values are JSON values (what the transport carries); progress is judged with a generous bound",
)
prop(
    "C12", "Every supported blob format decodes to exactly its records",
    "Blobs in each supported format (jsonl, json, txt, zstd, lzma, zip, csv, xml, lxml, parquet), however produced (line terminated or not, "
    "several members in a zip, any compression level, unicode, embedded quotes and new lines), decode to exactly the records they encode, in order. A "
    "dataset mixing formats returns the records of all of them, override_format decodes by the given format, and files of unknown, control or "
    "index type are never returned as records.",
    ["inputs", "configurations"],
    "all record lists x formats x encoder variations",
    "tests read one prepared file of most formats",
    [R + "internals/decompressors.py", R + "internals/parsers.py", R + "internals/parallel_reader.py", I + "xmler.py"],
    [("decompressors", R + "internals/decompressors.py"), ("dispatch", R + "internals/parallel_reader.py:KNOWN_EXTENSIONS")],
    "runtime monitoring: round trip through encoders which share no code with mabel",
    "text encoding is UTF-8; json lines have no raw line separators outside strings",
)
prop(
    "C13", "A corrupt blob never affects the records of other blobs",
    "Whatever bytes a blob holds (truncated, bit-flipped, empty, wrong format) and whenever getting it fails, a read of its dataset completes and "
    "returns every record of all the other blobs exactly once, unaltered. From a damaged line-based blob only "
    "records which are really in it, before the damage, are returned: nothing is invented.",
    ["fault_sequences", "inputs"],
    "all corruptions x formats x positions in the dataset",
    "tests have a single broken file",
    [R + "internals/parallel_reader.py"],
    [("per-blob error isolation", R + "internals/parallel_reader.py:ParallelReader.__call__")],
    "runtime monitoring: fault injection on stored bytes and reads, containment oracle",
    "records from a damaged blob are judged for jsonl and lzma/zstd streams; other formats only for isolation",
)
prop(
    "C14", "String filters select exactly the records which satisfy the expression",
    "A string filter (comparisons, IN, LIKE, IS, CONTAINS, MATCHES, NOT, AND, OR, parentheses) keeps exactly the records that satisfy it, with "
    "AND binding tighter than OR and NOT applying to the next condition. A missing value is a null: it equals only NULL and no ordering comparison, LIKE or CONTAINS is satisfied by it (!= is). Records are kept in "
    "order and unaltered, the result doesn't depend on earlier records or evaluations, and Reader filters, DictSet.filter and Expression agree. An expression with something missing or left over "
    "raises InvalidExpression.",
    ["inputs", "programs"],
    "all expressions (depth, operators, literals) x all records",
    "tests check a fixed list of expressions over one table",
    [I + "expression.py", "mabel/utils/token_labeler.py", R + "reader.py", I + "dictset.py"],
    [("tokeniser", "mabel/utils/token_labeler.py:Tokenizer"), ("parser and evaluation", I + "expression.py:Expression")],
    "runtime monitoring: random expression trees evaluated by an independent reference interpreter and by mabel over random records",
    "text values which read as a number, boolean or date are compared as one, except to quoted text; literals avoid quotes of their own kind",
)
prop(
    "C15", "DNF filters keep exactly the matching records",
    "A DNF filter (a tuple, a list of tuples ANDed, a list of lists ORed) with any of its operators keeps exactly the records it describes, in "
    "order and unaltered; missing and None values, and values which can't be compared, don't match. Reader filters, DictSet.filter and "
    "DnfFilters agree, and an empty filter keeps everything.",
    ["inputs", "programs"],
    "all predicates, operators and nesting x all records",
    "tests use about ten filters on one table",
    [I + "dnf_filters.py", I + "dictset.py", R + "reader.py"],
    [("evaluation", I + "dnf_filters.py:evaluate")],
    "runtime monitoring: random DNF filters against a reference evaluator through all three entry points",
    "an empty filter is [] ",
)
prop(
    "C16", "SQL statements return what their clauses mean",
    "For statements of SELECT (columns, functions, aggregates, AS, DISTINCT, *) FROM a dataset or subquery, WHERE, GROUP BY, HAVING, ORDER BY and LIMIT, "
    "SqlReader returns the rows obtained by applying the clauses in SQL order to the dataset's records. Neither letter case of keywords, "
    "white space nor comments change the answer. A statement without SELECT or FROM, with mismatched parentheses, repeated clauses or a LIMIT which isn't a whole number, selecting ungrouped "
    "columns, or FROM a name which doesn't start with a letter, repeats . or /, or has anything but letters, digits, . / - and _, raises "
    "InvalidSqlError (all but ungrouped columns without reading storage).",
    ["inputs", "programs"],
    "all statements of the grammar x all datasets",
    "tests mostly compare row counts for fixed statements on one dataset",
    [R + "internals/sql_reader.py", R + "internals/inline_evaluator.py", I + "group_by.py", I + "dictset.py"],
    [("parser", R + "internals/sql_reader.py:SqlParser"), ("pipeline", R + "internals/sql_reader.py:SqlReader")],
    "runtime monitoring: generated statements against an independent reference pipeline over the same records",
    "aggregates over an empty set and dates in literals are outside the generated grammar",
)
prop(
    "C17", "SQL FROM and dataset prefixes can't reach outside what is allowed",
    "A FROM clause naming a dataset is only accepted when it starts with a letter and is made of letters, digits, dots, slashes, dashes and underscores "
    "without traversal (.., // or --); anything else raises an error before storage is touched, also in subqueries. With "
    "valid_dataset_prefixes, storage is only touched for datasets starting with one of them, otherwise AccessDenied is raised.",
    ["inputs", "programs"],
    "all FROM clauses and dataset names, including hostile ones",
    "tests try a handful of bad names",
    [R + "internals/sql_reader.py", R + "reader.py"],
    [("whitelist", R + "internals/sql_reader.py:validate_dataset"), ("prefix check", R + "reader.py:Reader")],
    "runtime monitoring: hostile statement fuzzing with a storage-access monitor as the oracle",
    "prefixes are literal string prefixes",
)
prop(
    "C18", "Storage classes only change where records are kept",
    "A DictSet holds the same records in the same order under MEMORY, DISK, COMPRESSED_MEMORY and (for lists) NO_PERSISTANCE: every operation gives the same answer, "
    "for any number of records including none and across internal batches. A persisted DictSet can be iterated and operated on any number of "
    "times, each seeing every record, and count and get_items agree with the records.",
    ["inputs", "histories", "configurations"],
    "all record lists (sizes around batch limits) x storage classes x operation sequences",
    "tests iterate a small set once or twice",
    [I + "dictset.py", I + "storage_classes/"],
    [("storage classes", I + "storage_classes/"), ("iteration", I + "dictset.py:DictSet.__iter__")],
    "runtime monitoring: operation sequences run side by side on all storage classes, differential oracle",
    "records hold JSON values; one iteration at a time (an operation inside a loop over the same DictSet is a known finding)",
)
prop(
    "C19", "DictSet operations obey their relational meaning",
    "select, filter, distinct, take/itake, first, sort_and_take, keys, types, collect_list, get_items, sample and to_pandas return exactly what "
    "they describe for every list of records: right rows, right order, right multiplicity, values unaltered, missing columns as None (select) or "
    "left out (collect_list). distinct keeps the first of records equal in value and type and only drops those; sample returns a sub-sequence"
    " of about the fraction asked for.",
    ["inputs", "programs"],
    "all record lists x all arguments x chains of operations",
    "tests check a few calls on fixed data",
    [I + "dictset.py"],
    [("operations", I + "dictset.py:DictSet")],
    "runtime monitoring: random operation chains against a list-of-dicts reference model",
    "distinct is judged where equality is unambiguous (values of one type per column, or differing repr)",
)
prop(
    "C20", "DictSet aggregates are exact and order-independent",
    "min, max, min_max, sum, mean, variance, standard_deviation and count equal the mathematical result over the values of the column in records "
    "that have it, for every order of the records and storage class. The hash of a DictSet is the same for any order of records and of "
    "keys within records, and differs when the records, or how often they're repeated, differ.",
    ["inputs"],
    "all numeric columns, permutations and key orders",
    "tests check constants on one dataset",
    [I + "dictset.py"],
    [("aggregates", I + "dictset.py:DictSet.max/min/sum/..."), ("hash", I + "dictset.py:DictSet.__hash__")],
    "runtime monitoring: exact rational reference arithmetic and permutation (metamorphic) oracle",
    "float results are compared within rounding; aggregated columns hold comparable values wherever they're present; hash difference is up to 64-bit collisions",
)
prop(
    "C21", "Grouping partitions the records and aggregates each group exactly",
    "GroupBy yields one row per distinct combination of group values, holding those values, and each aggregate (COUNT, SUM, MIN, MAX, AVG, "
    "any combination, on any columns) equals the mathematical result over exactly that group's non-null values, None or a COUNT of 0 when there are none. The counts add "
    "up to the records, and the rows don't depend on the order of the records or which other aggregates are asked for.",
    ["inputs", "programs"],
    "all record lists x group columns x aggregate sets",
    "tests compare a few totals",
    [I + "group_by.py", I + "dictset.py"],
    [("map", I + "group_by.py:_map"), ("reduce", I + "group_by.py:aggregate")],
    "runtime monitoring: reference grouping with exact arithmetic, permutation and subset (metamorphic) oracles",
    "sums are compared exactly for integers, within rounding for floats",
)
prop(
    "C22", "LIKE and MATCHES match exactly their pattern language",
    "LIKE matches the whole value, case-insensitively, with % for any run of characters (including none and new lines), _ for exactly one, and every "
    "other character only for itself, whatever characters either holds; NOT LIKE is its complement and nothing is LIKE a missing value. "
    "MATCHES finds the regular expression anywhere in the value. The answer doesn't depend on patterns used before.",
    ["inputs"],
    "all patterns x all strings",
    "tests try about twenty patterns",
    ["mabel/utils/text.py", "mabel/utils/token_labeler.py", I + "dnf_filters.py"],
    [("pattern compilation", "mabel/utils/text.py:_sql_like_fragment_to_regex")],
    "runtime monitoring: random patterns against a dynamic-programming matcher through every entry point",
    "case folding is str.lower, judged where lower() keeps the length; the time a pattern of many wildcards takes is not judged",
)
prop(
    "C23", "Dates parse exactly or not at all, and ranges cover every hour once",
    "parse_iso returns exactly the date and time written for every valid ISO form it documents (date, minutes, seconds, fraction ignored, T or space, Z or +offset "
    "ignored), passes through date values, and returns None, never an error, for anything else. parse_delta "
    "returns the stated duration; date_range yields every hour from start to end inclusive once, in order, and refuses a reversed range.",
    ["inputs"],
    "all date strings (valid, malformed, hostile) and ranges",
    "tests check a short list of strings",
    ["mabel/utils/dates.py"],
    [("parser", "mabel/utils/dates.py:parse_iso"), ("ranges", "mabel/utils/dates.py:date_range")],
    "runtime monitoring: generated and mutated date strings against datetime's own arithmetic",
    "years 1..9999; the process runs in UTC",
)
prop(
    "C24", "Paths split and build without loss",
    "get_parts splits any path of two or more parts so that bucket, path, stem and suffix put it back together, and build_path and date_format replace every date placeholder with "
    "the zero-padded value of exactly the given date, leaving everything else alone. Distinct dates give distinct paths to the template's resolution; silent_remove "
    "removes a file, ignores a missing one and reports any other failure.",
    ["inputs"],
    "all path strings, templates and dates",
    "tests check a few paths",
    ["mabel/utils/paths.py"],
    [("paths", "mabel/utils/paths.py")],
    "runtime monitoring: generated paths and templates with reassembly and reference-format oracles",
    "years have four digits",
)
prop(
    "C25", "Table displays show every cell, escaped and aligned",
    "to_html_table escapes every value and heading, so no record content can add markup, break out of an attribute or a cell; both tables show every "
    "column of the first `limit` rows (one or more), and no others, each value in its own row under its own heading, with missing values blank. ASCII tables are rectangular for single-line "
    "values, and displaying a persisted DictSet doesn't change it.",
    ["inputs"],
    "all records (hostile strings, nested values, ragged columns) x limits",
    "tests look at the first characters of one table",
    [I + "display.py", I + "dictset.py"],
    [("escaping", I + "display.py:html_table"), ("layout", I + "display.py:ascii_table")],
    "runtime monitoring: output parsed by an independent HTML parser / grid parser and compared with the records",
    "widths are in characters",
)
prop(
    "C26", "Inline functions compute their documented result for every row",
    "Each inline function in a select (dates, strings, numbers, booleans, hashes) returns, for every row, the value its name documents for that "
    "row's arguments (of the type the function takes), with column, literal and nested arguments, in any letter case and with or without AS, which names a function's result. Selecting an expression gives one row per record in order, and its value "
    "never depends on other rows or earlier calls.",
    ["inputs", "programs"],
    "all functions x arguments x nesting x rows",
    "tests call each function about once",
    [R + "internals/inline_functions.py", R + "internals/inline_evaluator.py"],
    [("functions", R + "internals/inline_functions.py:FUNCTIONS"), ("evaluation", R + "internals/inline_evaluator.py:Evaluator")],
    "runtime monitoring: random calls against reference implementations, interleaved to expose state",
    "RANDOM and NOW are judged by range",
)
prop(
    "C27", "Flattening and record helpers keep every leaf",
    "flatten keeps every leaf value (empty containers have none) of a nested record under the path of keys and list positions that leads to it, for every nesting, separator and parent key, and "
    "distinct leaves never overwrite each other unless the input's own keys spell the same path. order, set_value and select_record_fields do what they say "
    "and never change their input.",
    ["inputs"],
    "all nested records",
    "tests flatten two records",
    [I + "records.py"],
    [("flatten", I + "records.py:flatten")],
    "runtime monitoring: reference recursive model over generated nested records",
    "dictionary keys are strings",
)
prop(
    "C28", "A database writer hands over every record exactly once, in order",
    "A DatabaseWriter gives its inner writer every accepted record exactly once, in order, in batches of no more than 100 (more only after a batch failed to commit), for any number of records; finalize hands over the "
    "rest before the inner writer is finalised and returns the number of records. Records breaking the schema or expectations are rejected and never handed over, and "
    "a failing inner commit or finalise is reported to the caller.",
    ["histories", "inputs", "fault_sequences"],
    "all record counts (around batch limits), values, rejected records and failing commits",
    "tests write one small set",
    [W + "database_writer.py", "mabel/adapters/database/"],
    [("batching", W + "database_writer.py:append/commit/finalize")],
    "runtime monitoring: a recording inner writer, conservation and order oracle, injected commit failures",
    "a retry after a failed commit may repeat that batch",
)
prop(
    "C29", "Readers refuse invalid parameters before touching storage",
    "Any unknown, misspelt or missing required parameter, or incompatible combination (raw_path with freshness_limit or partitions, "
    "cursor with multiprocess, partition_filter with freshness_limit, freshness_limit over different dates), raises an error before any storage access, in any order and any number of "
    "times. Every valid combination is accepted, and one call never changes what later calls accept.",
    ["inputs", "histories"],
    "all subsets of parameters, valid and not, in sequences",
    "tests try a few bad names",
    ["mabel/utils/parameter_validator.py", R + "reader.py"],
    [("rules", R + "reader.py:RULES"), ("validation", "mabel/utils/parameter_validator.py:validate")],
    "runtime monitoring: random parameter sets with a storage-access monitor, sequences interleaving readers with extra rules",
    "the compatibility rules are those in the Reader's documented rule table",
)
prop(
    "C30", "freshness_limit steps back to the newest data within the limit, no further",
    "With a freshness_limit a Reader returns exactly the data of the most recent day, at or before the date asked for, that has data, if it is within the limit, and raises "
    "DataNotFoundError when there is none. Data on later days, or older than the limit, is never returned, and without a limit no "
    "other day is read.",
    ["inputs", "configurations"],
    "all limits x positions of data (gaps, month/year ends)",
    "tests use two prepared dates",
    [R + "reader.py", R + "internals/base_inner_reader.py"],
    [("step back", R + "reader.py:_create_line_reader")],
    "runtime monitoring: generated layouts with gaps, model of the newest permissible day",
    "limits are in whole or part days; daily partition templates",
)
prop(
    "C31", "Readers, writers and sets leave nothing running or on disk",
    "Once finalize has returned (and within a bounded time), and once sets are finished with, no attendant thread, worker process, open file or temporary file made by the library "
    "remains, apart from a DISK set's single temporary file which is removed by process exit. Readers never write, and nothing is written outside the dataset's folder and the temporary directory.",
    ["histories", "configurations"],
    "all sequences of operations, including failures and abandoned iterations",
    "tests never look",
    [I + "storage_classes/storage_class_disk.py", W + "stream_writer.py", R + "internals/multiprocess_wrapper.py", "mabel/adapters/disk/"],
    [("temporary file removal", I + "storage_classes/storage_class_disk.py"), ("attendant stop", W + "stream_writer.py:finalize")],
    "runtime monitoring: thread, process, descriptor and file accounting around generated sessions in child processes",
    "descriptor accounting through /proc/self/fd",
)
prop(
    "C32", "Lazy operations consume no more than they need",
    "Constructing a Reader or a chain of lazy operations (select, filter, distinct, itake) reads nothing; taking the first n results "
    "(take, itake, first, keys and types of n rows, a SQL LIMIT without grouping or ordering) consumes only the records needed to produce them, and reads only the blobs up to the one holding the last of those records. Generators and endless inputs are therefore usable with take, first and itake.",
    ["inputs", "programs"],
    "all chains of lazy operations x n x inputs",
    "tests materialise everything",
    [I + "dictset.py", R + "reader.py"],
    [("generators", I + "dictset.py"), ("lazy line reader", R + "reader.py:__next__")],
    "runtime monitoring: counting iterators and the storage log as the oracle",
    "persistence set to a storage class, multiprocess reading and table displays are excluded",
)
prop(
    "C33", "Object-store adapters store and find exactly what was written",
    "Written and read through the MinIO and Google Cloud Storage adapters, a dataset behaves as on any other storage: every record is read back exactly once, frame flags are in the folder of their "
    "frame, listings return each object of the asked folder once and nothing else, bytes are unaltered, and every client is made with the credentials given. A storage error while writing or listing is raised to "
    "the caller, or retried when transient, never hidden; a blob which can't be read is skipped as on other storage.",
    ["inputs", "histories", "fault_sequences"],
    "all datasets, layouts and failing calls against a recorded client",
    "the tests need real services and don't run here",
    ["mabel/adapters/minio/", "mabel/adapters/google/"],
    [("adapters", "mabel/adapters/")],
    "runtime monitoring: adapters run against recording in-memory clients, round trip and call-log oracle",
    "the client libraries are replaced by stand-ins with the documented semantics",
)
prop(
    "C34", "Inputs are never changed",
    "No operation changes the caller's data: records appended to a writer, dictionaries in a list given to a DictSet, filter and schema definitions, and argument lists are equal "
    "before and after every operation, including further operations on its results. Two operations on the same list-backed DictSet never affect each other.",
    ["inputs", "programs"],
    "all operations x all inputs",
    "tests don't compare their inputs afterwards",
    [I + "dictset.py", I + "collected_set.py", I + "records.py", W],
    [("copies", I + "dictset.py"), ("copies", I + "collected_set.py")],
    "runtime monitoring: deep snapshots around generated calls",
    "the records of a result may be the caller's own; what a caller does to them isn't an operation",
)
prop(
    "C35", "Independent readers, writers and filters don't interfere across threads",
    "Readers, batch writers, sets and filters used independently in concurrent threads each give the result they give alone, and one Expression, DnfFilters or Evaluator shared "
    "by many threads gives each thread the right answer for its own records.",
    ["schedules", "histories"],
    "all interleavings of independent sessions",
    "tests are single-threaded",
    [I + "expression.py", R + "reader.py", W + "internals/blob_writer.py", "mabel/utils/text.py"],
    [("per-instance state", "mabel/")],
    "runtime monitoring: the same sessions alone and in parallel with a tiny switch interval, differential oracle",
    "interleavings are sampled",
)
prop(
    "C36", "Random helpers stay in range, and context merging keeps precedence",
    "random_range returns integers within its bounds inclusive and reaches all of them, random_choice returns members and reaches all of them, random_string has exactly the "
    "length asked for and never repeats (also across forked processes), and bytes_to_int is big-endian. build_context returns the configuration file merged with the arguments, arguments winning, and reports missing or malformed files.",
    ["inputs"],
    "all bounds, lengths, option lists and configurations",
    "tests call each once",
    ["mabel/utils/entropy.py", "mabel/utils/common.py"],
    [("entropy", "mabel/utils/entropy.py"), ("merge", "mabel/utils/common.py:build_context")],
    "runtime monitoring: range, coverage and merge oracles over generated calls",
    "coverage of small ranges is judged with a miss probability below 1e-12",
)
prop(
    "C37", "Collected sets partition the records",
    "collect_set puts every record, without the collecting column, in exactly the collection of its value (None when missing), in order; counts, items, selection of one or many collections, aggregate and "
    "apply agree with that partition. With dedupe each distinct record is kept once.",
    ["inputs"],
    "all record lists x columns",
    "tests check one count",
    [I + "collected_set.py"],
    [("partition", I + "collected_set.py:CollectedSet")],
    "runtime monitoring: reference partition over generated records",
    "dedupe over hashable values",
)
prop(
    "C38", "Histograms and error stacks account for everything",
    "A histogram's bins hold every value exactly once, in order of value, for any range (below 1e308) and any number of bins from one up. The error stack names every frame and cause of "
    "the exception being handled, with file, line, function and the code around it, leaves out what was suppressed, never raises itself, and is empty when there is no exception.",
    ["inputs"],
    "all value lists and exception chains",
    "tests print one of each",
    [I + "histogram.py", "mabel/errors/render_error_stack.py"],
    [("binning", I + "histogram.py"), ("stack walk", "mabel/errors/render_error_stack.py")],
    "runtime monitoring: conservation oracle over generated values, generated exception chains compared with traceback's own walk",
    "locals have working str()",
)
prop(
    "C39", "Text helpers and null adapters keep and drop exactly what they say",
    "tokenize gives the lower case runs of ASCII letters and digits between white space, other characters being dropped; sanitize and safe_field_name keep exactly the safe characters, in order; wrap_text makes no line longer "
    "than asked, wraps each line of the text on its own, leaves lines which fit and loses no character other than white space; colorize replaces exactly the names of colours, by their codes or by nothing. "
    "A NullReader's data is read (with filters, selects and dates) like a blob of the same records; a NullWriter answers writers like one which stores.",
    ["inputs"],
    "all texts x widths x safe characters, all record lists x queries",
    "tests use one or two short texts",
    ["mabel/utils/text.py", "mabel/utils/colors.py", "mabel/adapters/null/null_reader.py", "mabel/adapters/null/null_writer.py"],
    [("text helpers", "mabel/utils/text.py"), ("colours", "mabel/utils/colors.py:colorize"), ("null adapters", "mabel/adapters/null/")],
    "runtime monitoring: answers compared with references which go through the text a character at a time, and with reads and writes of storage",
    "white space at the ends of lines isn't kept",
)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["text"]},
                        "why_tests_cant": p["why"],
                        "anchors": {
                            "files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        },
                    },
                    ensure_ascii=False,
                )
                + "\n"
            )
    checks, missing = [], []
    for p in P:
        if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
            checks.append(
                {
                    "property": p["id"],
                    "quick_cmd": f"python3 run.py {p['id']} --tier quick",
                    "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                    "evidence_file": f"evidence/{p['id']}.json",
                    "technique": p["technique"],
                    "level": p["level"],
                    "level_note": p["note"],
                }
            )
        else:
            missing.append({"property": p["id"], "reason": "no check has been built yet"})
    manifest = {
        "version": 1,
        "setup_cmd": "python3 run.py --selftest",
        "checks": checks,
        "not_applicable": missing,
        "notes": "Pure Python, nothing to build: every check imports mabel from /repo's working tree (asserted at start). See DESIGN.md.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
