"""
One case is a dataset of jsonl, zstd and json blobs (1 to 40 of them, empty, corrupt and
filtered out ones among them, or 70 to 140 small ones over several days) read serially and with multiprocess=True, with the same filter
and select. The oracle is bag equality of values and types. Finishing is judged on the number
of progress-free ticks of a canary, worker processes are counted before and after, also when
the workers start late and the reader is slow, when it takes hours, and when the read is abandoned after a few records or dropped unread. Non-trivial when worker
processes were observed; distinct by dataset shape and query.
"""

import contextlib
import datetime
import gc
import json
import multiprocessing
import threading
import time

from vf import gen
from vf.codec import bag, diff
from vf.store import StorageFault, Store, adapters
from vf.stress import Canary, stacks, until

ASSUMPTIONS = [
    "values are JSON values (workers return records as JSON), integers fit in 64 bits",
    "not finishing means no progress for about a minute of a canary thread's ticks",
]

QUERIES = [
    {},
    {"filters": "k > 2"},
    {"filters": [("k", "<=", 2), ("s", "==", "x")]},
    {"select": "_id, s"},
    {"select": "_id, UPPER(s) AS u, k", "filters": "k < 4"},
    {"filters": "k > 1000"},
    {"select": "_id, v", "filters": "_id >= 0"},
]


def build(rng, count, corrupt, big=False):
    import zstandard

    store = Store()
    uid = 0
    shape = []
    for b in range(count):
        form = rng.choice(["jsonl", "jsonl", "zstd", "json"])
        kind = rng.choice(["data"] * 6 + ["empty", "none pass"] + (["corrupt", "failing"] if corrupt else []))
        rows = []
        for _ in range(1 if form == "json" else 0 if kind == "empty" else rng.choice([1, 3, 20, 200 if rng.random() < 0.2 else 5]) if not (big and b == 1) else 5000):
            rows.append({"_id": uid, "k": 0 if kind == "none pass" else rng.randint(0, 5), "s": rng.choice(["x", "y", "é\n\"q\""]), "v": gen.json_value(rng)})
            uid += 1
        if form == "json":
            data = json.dumps(rows[0]).encode()
        else:
            data = b"".join(json.dumps(r).encode() + b"\n" for r in rows)
            if form == "zstd":
                data = zstandard.compress(data)
        if kind == "corrupt":
            data = rng.choice([data[: len(data) // 2], b"\x00" + data, b"{" + data, data + b"{broken\n", b"not json\n"])
        name = f"ds/mp/year_2021/month_01/day_01/{'fail-' if kind == 'failing' else ''}{b:04d}.{form}"
        store.put(name, data)
        shape.append((form, kind, len(rows)))

    def before_get(name):
        if "fail-" in name:
            raise StorageFault(name)

    store.before_get = before_get
    return store, shape


def plain(record):
    return record.as_dict() if hasattr(record, "as_dict") else record


def children():
    import psutil

    return [p.pid for p in psutil.Process().children(recursive=True) if p.status() != psutil.STATUS_ZOMBIE]


def bounded(ctx, func, detail, ticks=6000):
    """run func in a thread, it must keep making progress: returns (finished, result)"""
    box = {"progress": 0, "result": None, "error": None}

    def go():
        try:
            box["result"] = func(box)
        except BaseException as err:  # noqa
            box["error"] = err

    thread = threading.Thread(target=go, daemon=True)
    thread.start()
    canary = Canary()
    last, mark = None, 0
    while thread.is_alive():
        thread.join(0.02)
        if box["progress"] != last:
            last, mark = box["progress"], canary.ticks
        if canary.ticks - mark > ticks:
            canary.stop()
            ctx.violation("a multiprocess read made no progress", where=stacks(), records_so_far=box["progress"], **detail)
            return False, None
    canary.stop()
    if box["error"] is not None:
        ctx.violation(f"a multiprocess read raised {box['error']!r}", **detail)
        return False, None
    return True, box["result"]


@contextlib.contextmanager
def apart(seconds):
    """workers start some time after each other, so the first do the work of the last"""
    start = multiprocessing.Process.start

    def later(self):
        start(self)
        time.sleep(seconds)

    multiprocessing.Process.start = later
    try:
        yield
    finally:
        multiprocessing.Process.start = start


def late_workers(ctx, case):
    """few small blobs, workers which start late and find nothing to do, and a slow reader"""
    from mabel import Reader

    rng = ctx.rng
    store = Store()
    count = rng.choice([5, 5, 6, 8])
    for b in range(count):
        store.put(f"ds/mp/year_2021/month_01/day_01/{b:04d}.jsonl", b'{"_id": %d}\n' % b)
    wait = rng.choice([0.08, 0.15, 0.25])
    detail = dict(blobs=count, workers_apart=wait)

    def go(box):
        out = []
        with apart(wait):
            for record in Reader(dataset="ds/mp", start_date="2021-01-01", end_date="2021-01-01", inner_reader=adapters(store)[1], multiprocess=True):
                out.append(plain(record)["_id"])
                time.sleep(1.3 if len(out) == 1 else 0.15)
                box["progress"] += 1
        return out

    ok, got = bounded(ctx, go, detail)
    if not ok:
        return False
    ctx.check(sorted(got) == list(range(count)), "a multiprocess read with late workers returned different records", got=str(sorted(got)), **detail)
    ctx.count("late_workers")
    ctx.seen(("late", detail), sample=detail)
    return True


def long_read(ctx, case):
    """a reader which takes a long time over the records (the clocks are moved on, no time is
    spent) while there are blobs which take a while to be read"""
    from mabel import Reader

    store = Store()
    count = ctx.rng.choice([6, 9])
    for b in range(count):
        store.put(f"ds/mp/year_2021/month_01/day_01/{b:04d}.jsonl", b'{"_id": %d}\n' % b)

    def before_get(name):
        if "/0000" not in name:
            time.sleep(2.6)

    store.before_get = before_get
    hours = ctx.rng.choice([1, 5])
    clocks = time.time, time.monotonic, time.perf_counter
    detail = dict(blobs=count, hours_later=hours)

    def go(box):
        out = []
        ds = Reader(dataset="ds/mp", inner_reader=adapters(store)[1], start_date="2021-01-01", end_date="2021-01-01", multiprocess=True)
        for record in ds:
            out.append(plain(record)["_id"])
            box["progress"] += 1
            if len(out) == 1:
                for clock in clocks:
                    setattr(time, clock.__name__, lambda clock=clock: clock() + hours * 3600)
        return out

    try:
        ok, got = bounded(ctx, go, detail)
    finally:
        time.time, time.monotonic, time.perf_counter = clocks
    if ok:
        ctx.check(sorted(got) == list(range(count)), "a read which took long left records out", got=sorted(got), expected=count, **detail)
    ctx.count("long_reads")
    ctx.seen(("long read", count, hours))
    return ok


def several_days(ctx, case):
    """more small blobs than there are places in any queue, over several days"""
    from mabel import Reader

    rng = ctx.rng
    store = Store()
    partitions, form = rng.choice([
        (["year_{yyyy}/month_{mm}"], "year_%Y/month_%m"),
        (["{yyyy}"], "%Y"),
        (["year_{yyyy}/month_{mm}/day_{dd}"], "year_%Y/month_%m/day_%d"),
    ])
    days = rng.choice([2, 3, 7])
    start = datetime.date(2021, rng.randint(1, 12), rng.choice([1, 14, 28]))
    count = rng.choice([70, 90, 140])
    for b in range(count):
        day = start + datetime.timedelta(days=rng.randrange(days))
        store.put(f"ds/mp/{day.strftime(form)}/{b:04d}.jsonl", b'{"_id": %d}\n' % b)
    kwargs = dict(dataset="ds/mp", partitions=partitions, start_date=start, end_date=start + datetime.timedelta(days=days - 1), inner_reader=adapters(store)[1])
    detail = dict(blobs=count, partitions=partitions, start=str(start), days=days)
    serial = [plain(r)["_id"] for r in Reader(**kwargs)]

    def go(box):
        out = []
        for record in Reader(multiprocess=True, **kwargs):
            out.append(plain(record)["_id"])
            box["progress"] += 1
        return out

    ok, got = bounded(ctx, go, detail)
    if not ok:
        return False
    ctx.check(sorted(serial) == list(range(count)), "a serial read isn't every record", got=len(serial), **detail)
    ctx.check(sorted(got) == sorted(serial), "a multiprocess read over several days returned different records",
              missing=sorted(set(serial) - set(got))[:10], repeated=sorted({g for g in got if got.count(g) > 1})[:10], **detail)
    ctx.count("several_days")
    ctx.count("multiprocess_reads")
    ctx.seen(("days", detail), sample=detail)
    return True


def one(ctx, case):
    from mabel import Reader

    rng = ctx.rng
    count = [8, 20, 5, 7, 44, 12, 6, 9, 1, 5, 15, 4][(case * 3 // 4) % 12]
    store, shape = build(rng, count, corrupt=rng.random() < 0.4, big=case % 5 == 1)
    query = rng.choice(QUERIES)
    kwargs = dict(dataset="ds/mp", start_date="2021-01-01", end_date="2021-01-01", inner_reader=adapters(store)[1], **query)
    detail = dict(shape=shape, query=query)
    serial = [plain(r) for r in Reader(**kwargs)]
    seen_workers = set()

    def go(box):
        out = []
        for record in Reader(multiprocess=True, **kwargs):
            if not box["progress"]:
                seen_workers.update(children())
            out.append(plain(record))
            box["progress"] += 1
        return out

    before = set(children())
    ok, got = bounded(ctx, go, detail)
    if not ok:
        return False
    ctx.check(bag(got) == bag(serial), "a multiprocess read returned different records", **detail, **diff(bag(serial), bag(got)))
    left = until(lambda: not (set(children()) - before), ticks=1500)
    ctx.check(left, "worker processes were left behind by a finished read", **detail)
    used = bool(seen_workers - before)
    if used:
        ctx.count("workers", len(seen_workers - before))
        ctx.count("multiprocess_reads")
    ctx.count("records", len(got))
    ctx.seen(detail, nontrivial=used or (count > 4 and not got), sample=detail)
    return True


def abandon(ctx, case):
    from mabel import Reader

    rng = ctx.rng
    count = rng.choice([5, 8, 20])
    store, shape = build(rng, count, corrupt=False)
    n = rng.choice([0, 1, 1, 2, 15])
    how = rng.choice(["del", "take", "first", "raise"])
    detail = dict(shape=shape, abandoned_after=n, how=how)
    before = set(children())
    kwargs = dict(dataset="ds/mp", start_date="2021-01-01", end_date="2021-01-01", inner_reader=adapters(store)[1], multiprocess=True)

    def go(box):
        reader = Reader(**kwargs)
        if how == "take":
            got = list(reader.take(n))
            ctx.count("taken", len(got))
        elif how == "first":
            reader.first()
        elif how == "raise":
            try:
                for i, _ in enumerate(reader):
                    box["progress"] += 1
                    if i >= n:
                        raise KeyError("the caller gives up")
            except KeyError:
                pass
        else:
            iterator = iter(reader)
            for i in range(n):
                next(iterator, None)
            del iterator
        del reader
        gc.collect()

    ok, _ = bounded(ctx, go, detail)
    if not ok:
        return False
    gone = until(lambda: not (set(children()) - before), ticks=1500)
    ctx.check(gone, "worker processes were left behind by an abandoned read", **detail)
    ctx.count("abandoned_reads")
    ctx.seen(("abandon", detail), sample=detail)
    return gone


def run(ctx):
    import mabel  # noqa

    ctx.minimum = 15
    ctx.deadline(22, 500)
    ctx.max_violations = 2
    for case in range(ctx.n(200, 4000)):
        if not ctx.more():
            break
        if not (long_read(ctx, case) if case % 48 == 7 else late_workers(ctx, case) if case % 12 == 2 else several_days(ctx, case) if case % 12 == 5 else one(ctx, case) if case % 4 else abandon(ctx, case)):
            break
    ctx.require("multiprocess_reads", 4)
    ctx.require("abandoned_reads", 2)
    ctx.require("late_workers", 1)
    ctx.require("long_reads", 1)
    ctx.require("several_days", 1)
    ctx.require("records", 80)
