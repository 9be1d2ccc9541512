HEAD = r'''
# Runtime monitoring of mabel

## What is being verified, and with what

mabel is a pure Python library (records in, blobs out; blobs in, records out; lazy sets of
records, filters and a small SQL on top of those). There is no native code of its own to build
with a compiler sanitizer, and no data race in the C sense for a race detector to see, so
ASan/UBSan/TSan/MSan, valgrind and miri have nothing here to instrument. The memory- and
concurrency-safety side of the family shows up in its Python form instead: leaked threads,
processes, file descriptors and temporary files (C31), lost updates between threads (C02, C07,
C35), shared mutable state (C34, C29), blocking for ever (C02, C11, C16). Everything is decided by
*monitors over executions of the real code*: the real package is imported from /repo's working
tree, driven by generated, hostile and stress workloads through its public interfaces, and what it
does (results, storage operations, files, threads, exceptions) is recorded and judged by an oracle
which is written from the property, never from mabel's code.

No hook was needed in mabel itself (MANIFEST's `hooks` is empty): storage is pluggable
(`inner_reader`/`inner_writer`), so the recorder, the fault injector and the crash-snapshot machine
are an inner reader and writer; the clock is frozen with freezegun where dates matter; the
object-store adapters are driven over stand-ins for their client libraries; files, threads and
processes are watched with `sys.addaudithook`, `/proc` and `threading`.

### The pieces in vf/

| module | what it is |
|---|---|
| `core.py` | the verdict discipline: three-valued verdicts (held / violated / inconclusive), per-run counters and minimums (a check whose monitor wasn't reached enough is *inconclusive*, exit 2, never a pass), distinct non-trivial counting by signature, replay files, known findings, the evidence file, a scratch folder, a watchdog |
| `store.py` | recorded storage: an in-memory inner reader/writer which logs each put, get and listing (thread, order, outcome), can fail before or after any chosen operation, delay, snapshot after every operation (crash points), shuffle listings, and flags an overwrite of a data blob at the moment it happens |
| `codec.py` | independent encoders and decoders of each blob format (never mabel's) |
| `setops.py` | reference semantics of the set operations on plain lists, with type-exact equality |
| `gen.py` | generators of hostile values, keys, records, names, dates |
| `clock.py` | running, coarse, still and frozen clocks |
| `stress.py` | thread stress: tiny switch interval, barriers, canary thread (progress is judged by the ticks of an unrelated thread, so a slow or busy machine isn't a deadlock) |
| `objects.py` | stand-in MinIO and GCS client libraries, with a call log and fault injection |

### Running

`python3 run.py C05 [--tier thorough] [--seed N] [--replay FILE]`. run.py re-executes itself in
/opt/venv with TZ=UTC, PYTHONHASHSEED=0 and no bytecode written, puts /repo first on the path and
checks that mabel comes from there, so nothing needs building (setup_cmd is that import test). A
replay file holds the whole case (records, schedule, faults) and the seed which makes it again.
`VF_REPO=/path` points the same checks at a scratch copy - used when planting bugs, never by the
registered commands. Verdicts depend only on VERIF_SEED except where real threads and processes
are involved (C02, C07, C11, C31, C35); there, only outcomes which are wrong under *every*
schedule are violations, so a schedule can hide a bug but never make an alarm.

The *thorough* tier is the same monitors with 10 to 30 times the cases, larger datasets, longer
schedules and exhaustive rather than sampled sweeps where the space is finite (fault positions,
cursor positions, cut positions), up to about 8 minutes a property.

### Levels claimed

Everything is `exploration` (cases made at random, judged by an exact oracle) except C04 and C06
which are `fault_enumeration`: in each generated history *every* storage operation is made the
crash point, or the failing operation, in turn.
'''

notes = dict(
C01='''*Reach*: the tests write a few hundred tame records with one template; here values are hostile
(64 bit edges, -0.0, surrogate-free odd unicode, nested containers, empty records), blob sizes make
many roll-overs, writers for different datasets and dates interleave. *Bounds*: JSON-able values
(parquet: its column types), up to about 2000 records a case. 13 s.''',
C02='''*Reach*: schedules. Threads append while the real attendant evicts, with a switch interval of
microseconds, storage latency, pools of one, idle timeouts of zero. Only outcomes wrong under every
schedule are judged; blocking is judged against a canary. *Bounds*: up to 8 threads, some hundreds
of records a session; the number of distinct commit orders seen is in the evidence. 33 s.''',
C03='''*Reach*: the cross product of placeholder values, lists and failing records; tests have one
placeholder and plain words. Known findings: `value-is-BACKOUT`, `empty-values-collapse`. 3 s.''',
C04='''*Reach*: every storage operation of every history is a crash point. *Bounds*: histories of up to
6 frames and a few partition folders; a crash is between storage operations (a put is atomic, as it
is on object stores). A reader running in another thread while a batch is written is also watched.
21 s.''',
C05='''*Reach*: mixes; a rejected record in the middle, at a blob boundary, last, first. Conformance is
judged by an independent model of the column types. *Bounds*: StreamWriter ignores expectations
(out of scope, it sends failing records to BACKOUT, C03). 3 s.''',
C06='''*Reach*: fault positions, all of them, and runs of them, also for the disk writer. A failed
writer tries to commit again when it's garbage collected, so "stored later" is accepted only for
records whose append didn't raise. 22 s.''',
C07='''*Reach*: clocks which stand still, processes which share a folder, records bigger than the
limit, multi-byte text (the limit is of bytes). 10 s.''',
C08='''*Reach*: lookalikes (folders whose name starts with the dataset's, files named as folders),
ranges over month and year ends, templates with and without {HH}, reversed ranges, all date forms;
listing order is shuffled. *Bounds*: templates end at {HH}; hourly partitions with a plain end date
cover hour 00 only (documented behaviour of dates), so ranges are given to the hour there. 17 s.''',
C09='''*Reach*: combinations of partitionings and frames per value. *Bounds*: filter values are text. 8 s.''',
C10='''*Reach*: all positions of small datasets and chains of stops. *Bounds*: blobs are only appended
in later-sorting names (a cursor is a bit map over sorted names). An empty cursor is no cursor. 8 s.''',
C11='''*Reach*: more blobs than workers, corrupt and empty blobs, abandoned reads; finishing judged by
canary. *Bounds*: values which survive JSON (the transport); exceptions raised in workers are out of
scope. 23 s.''',
C12='''*Reach*: dialects mabel's own writers never make. 8 s.''',
C13='''*Reach*: every cut position (thorough: of every format), flips, failing gets. *Bounds*: for
damage which an independent decoder still reads (a flipped letter in a JSON string), the records it
reads are also accepted. 7 s.''',
C14='''*Reach*: precedence, nulls and look-alike values in combination; tests have hand-written ones.
*Bounds*: trees to depth 4; trailing tokens after a complete expression, functions in filters, and
IN over text are out of scope. 8 s.''',
C15='''*Reach*: each operator over each pair of types. 5 s.''',
C16='''*Reach*: clauses in combination, against an interpreter of the query (not of its text).
*Bounds*: one ORDER BY column; functions used in WHERE are selected too; aggregates over nothing give
no row (as the engine documents). Hanging is judged by interpreter steps, not time. 15 s.''',
C17='''*Reach*: names made by mutation, and every path storage is asked for is seen. The storage is the
recorder, so an escaped path touches nothing real. 4 s.''',
C18='''*Reach*: sequences of operations over the four classes at sizes around the internal batch
borders. Known finding: `use-while-iterating`. *Bounds*: JSON values for DISK and COMPRESSED. 16 s.''',
C19='''*Reach*: type-exact relational semantics (1, 1.0, True and "1" are different) with repeats and
missing columns. *Bounds*: sample sizes within 8 standard deviations (false alarm about 1e-15). 14 s.''',
C20='''*Reach*: catastrophic cancellation, mixed magnitudes, order. Tolerances are relative errors of the
exact rational result, wide enough for any backward stable method and far below a single-pass
variance's failure. 14 s.''',
C21='''*Reach*: null-only groups, zeros, look-alike group values, every combination of aggregates. 8 s.''',
C22='''*Reach*: values which nearly match over an alphabet of regex meta-characters, caching across
patterns. 3 s.''',
C23='''*Reach*: the whole grammar of accepted text and one-change neighbours of it. *Bounds*: text after
the seconds is ignored by design; invalid text in a Reader's dates means today. 3 s.''',
C24='''*Reach*: arbitrary names and templates, dates with years below 1000, failing removes. 3 s.''',
C25='''*Reach*: a real HTML parser decides what is markup; ASCII tables are cut at their borders. *Bounds*:
limits of one or more; multi-line values only in HTML. 3 s.''',
C26='''*Reach*: trees of functions with own implementations as oracle. *Bounds*: arguments of the type a
function takes. 3 s.''',
C27='''*Reach*: deep nesting and long lists, keys which spell other keys' paths. 3 s.''',
C28='''*Reach*: failing commits at batch borders, retry, garbage collection. *Bounds*: an inner commit
fails before it takes anything. 6 s.''',
C29='''*Reach*: combinations and *sequences* of calls, so rules leaking from one call to the next are
seen. *Bounds*: present-but-falsy parameters of a bad combination are unspecified. 15 s.''',
C30='''*Reach*: kinds of days (only control files, only BACKOUT, incomplete frames). 13 s.''',
C31='''*Reach*: abandonment, failures and interpreter exits; descriptors, threads, processes and files are
counted before and after each session, after waiting for them to settle (bounded). *Bounds*: killed
processes can't clean up. 27 s.''',
C32='''*Reach*: consumption counted per result, endless sources. *Bounds*: the table displays look one row
ahead. 8 s.''',
C33='''*Reach*: real adapter code over recording stand-ins of the client libraries (the real services
aren't reachable offline). *Bounds*: the stand-ins implement only the calls' documented meaning. 20 s.''',
C34='''*Reach*: deep snapshots of every argument around every operation. 16 s.''',
C35='''*Reach*: threads are switched inside of the library's own use of records and storage (the records
and storages give way at each use); turns taken are counted. 25 s.''',
C36='''*Reach*: completeness of small ranges with a false alarm chance below 1e-12, fork. 10 s.''',
C37='''*Reach*: value kinds (None, zero, False, blank) as collections. 6 s.''',
C38='''*Reach*: ranges at the edge of what floats hold, generated exception graphs. 10 s.''',
C39='''*Reach*: characters of other scripts, every kind of line break, words longer than lines. 6 s.''',
)


also = {"unicode-line-breaks": ", C01"}
