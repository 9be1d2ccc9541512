"""
One case is a writer history (Writer, BatchWriter, StreamWriter, all formats) over storage
which fails at chosen operations: every single operation of a history in turn, runs of
failures, random failures and permanent failure, with errors of many kinds, raised before or after the blob was stored.
The oracle is conservation: when finalize returned normally every record whose append
returned normally is in storage (exactly once unless a failure was raised after storing),
no blob that was stored changes, nothing is stored that was not offered, and a batch is only
flagged complete when every accepted record is stored. Non-trivial when at least one failure
was injected; distinct by configuration and the operations which failed.
"""

import os

from vf import gen
from vf.codec import bag, decode_blob, diff, flat_model
from vf.store import Injected, StorageFault, Store, adapters, faults
from vf.stress import until

LEVEL = "fault_enumeration"
ASSUMPTIONS = [
    "a put is atomic: it stores all of a blob or none of it, though it can fail after storing",
    "a record whose append raised may or may not be stored, once",
]


def stored_records(store):
    return [r for name, data in sorted(store.data_blobs().items()) for r in decode_blob(name, data)]


def judge(ctx, store, accepted, offered_bad, form, config, exact, what):
    """accepted: appended without error, offered_bad: append raised"""
    shape = flat_model if form == "flat" else (lambda r: r)
    got = bag(stored_records(store))
    want = bag([shape(r) for r in accepted])
    maybe = bag([shape(r) for r in offered_bad])
    lost = want - got
    if lost:
        ctx.violation(f"{what}: records are missing after a write reported as successful", config=config, **diff(want, got))
        return False
    extra = got - want - maybe
    if exact and extra:
        ctx.violation(f"{what}: records are repeated, or were never offered", config=config, **diff(want + maybe, got))
        return False
    if set(extra) - set(want) - set(maybe):
        ctx.violation(f"{what}: something was stored which was never offered", config=config, **diff(want + maybe, got))
        return False
    return True


# storage fails in many ways, none of which is anybody's to hide
FAULTS = faults()


def make_fault(plan, when, kind=StorageFault):
    """plan(index) -> fail?"""
    injected = []

    def before(index, name, data):
        if when == "before" and plan(index):
            injected.append(index)
            raise kind(f"injected at {index}")

    def after(index, name, data):
        if when == "after" and plan(index):
            injected.append(index)
            raise kind(f"injected after {index}")

    return before, after, injected


def history(ctx, case, kind, form, records, blob_size, plan, when, config):
    """one run, returns the number of puts attempted"""
    from mabel import Writer
    from mabel.data import BatchWriter

    store = Store()
    first_seen = {}
    inner_writer, _ = adapters(store)
    kind_of_fault = ctx.rng.choice(FAULTS)
    config = {**config, "raised": kind_of_fault.__name__}
    before, after, injected = make_fault(plan, when, kind_of_fault)
    store.before_put = before
    cls = {"Writer": Writer, "BatchWriter": BatchWriter}[kind]
    accepted, bad = [], []

    def after_put(index, name, data):
        first_seen.setdefault(name, data)
        if name.endswith("frame.complete"):
            judge(ctx, store, accepted, bad, form, config, False, "a frame was flagged complete")
        after(index, name, data)

    store.after_put = after_put
    schema = [{"name": "_id", "type": "VARCHAR"}, {"name": "v", "type": "VARCHAR"}] if form == "parquet" else False
    writer = cls(dataset="ds/faults", format=form, schema=schema, date="2021-01-01", inner_writer=inner_writer, blob_size=blob_size)
    errors = 0
    for record in records:
        try:
            writer.append(record)
            accepted.append(record)
        except Injected:
            errors += 1
            bad.append(record)
        except Exception as err:
            ctx.violation("append raised something other than the storage's error", config=config, error=repr(err))
            return store.puts
    finished = False
    for attempt in range(3):
        try:
            writer.finalize()
            finished = True
            break
        except Injected:
            errors += 1
            ctx.check(not any(n.endswith("frame.complete") and when == "before" for n in store.blobs), "a frame is complete though finalize failed", config=config)
    if injected and not errors:
        # nobody was told, so nothing may be missing
        ctx.count("unreported_failures")
    if finished:
        judge(ctx, store, accepted, bad, form, {**config, "injected": injected}, when == "before", "finalize returned")
        if kind == "BatchWriter" and accepted:
            ctx.check(any(n.endswith("frame.complete") for n in store.blobs), "finalize returned but the frame isn't complete", config=config, injected=injected)
        ctx.count("finished_after_failures" if injected else "finished")
    else:
        ctx.check(
            when == "after" or not any(n.endswith("frame.complete") for n in store.blobs), "a frame which never finished is complete", config=config, injected=injected
        )
        ctx.count("never_finished")
    for name, data in first_seen.items():
        if not name.endswith("frame.complete"):
            ctx.check(store.blobs[name] == data, "a stored blob was changed by a later write", config=config, blob=name)
    ctx.count("injected_failures", len(injected))
    ctx.seen((config, injected), nontrivial=bool(injected), sample={**config, "failed_operations": injected, "finished": finished})
    # nothing is left to be written when the writer goes away
    store.before_put = store.after_put = None
    return store.puts


def make_records(rng, form, size, case):
    if form == "parquet":
        return [{"_id": f"{case}.{i}", "v": gen.typed_value(rng, "VARCHAR")} for i in range(size)]
    if form == "text":
        return [f"{case}.{i}".encode() for i in range(size)]
    return [{"_id": f"{case}.{i}", "v": gen.scalar(rng)} for i in range(size)]


def enumerate_points(ctx, case):
    """fail each operation of one history in turn"""
    rng = ctx.rng
    kind = rng.choice(["Writer", "BatchWriter", "BatchWriter"])
    form = rng.choice(["jsonl", "zstd", "parquet", "flat", "text"])
    size = rng.choice([1, 2, 5, 9])
    blob_size = rng.choice([1, 30, 100, 10**6])
    records = make_records(rng, form, size, case)
    config = dict(case=case, kind=kind, form=form, size=size, blob_size=blob_size)
    total = history(ctx, case, kind, form, records, blob_size, lambda i: False, "before", config)
    for when in ("before", "after"):
        for point in range(min(total + 1, 12)):
            for run in (1, 2, 10**9):
                history(ctx, case, kind, form, records, blob_size, lambda i: point <= i < point + run, when,
                        {**config, "when": when, "point": point, "run": run})


def random_faults(ctx, case):
    rng = ctx.rng
    kind = rng.choice(["Writer", "BatchWriter"])
    form = rng.choice(["jsonl", "zstd", "parquet", "flat", "text"])
    size = rng.choice([10, 50, 150])
    blob_size = rng.choice([1, 30, 100])
    p = rng.choice([0.05, 0.3, 0.7])
    faults = {i for i in range(1000) if rng.random() < p}
    config = dict(case=case, kind=kind, form=form, size=size, blob_size=blob_size, p=p)
    history(ctx, case, kind, form, make_records(rng, form, size, case), blob_size, lambda i: i in faults, rng.choice(["before", "after"]), config)


def streams(ctx, case):
    """failures in some streams, in appends, in the attendant's evictions, and in finalize"""
    from mabel.data import StreamWriter

    rng = ctx.rng
    store = Store()
    inner_writer, inner_reader = adapters(store)
    broken = set(rng.sample("abcde", rng.randint(1, 2)))
    mode = rng.choice(["finalize", "evict", "once", "flaky"])
    failing = {"on": mode in ("evict", "flaky")}
    counts = {"faults": 0}
    kind = rng.choice(FAULTS)

    def before(index, name, data):
        stream = name.split("/s=")[1][0]
        if stream in broken and (failing["on"] if mode != "flaky" else rng.random() < 0.6):
            counts["faults"] += 1
            if mode == "once":
                failing["on"] = False
            raise kind(f"injected in {stream}")

    store.before_put = before
    blob_size = rng.choice([10**6, 80])
    writer = StreamWriter(
        dataset="ds/s={s}", format=rng.choice(["jsonl", "zstd"]), schema=False, date="2021-01-01", inner_writer=inner_writer, partitions=None,
        blob_size=blob_size, idle_timeout_seconds=0.05 if mode in ("evict", "flaky") else 60, writer_pool_capacity=rng.choice([1, 5]) if mode in ("evict", "flaky") else 50,
    )
    accepted, bad = {}, {}
    config = dict(case=case, streams=mode, raised=kind.__name__, broken=sorted(broken), blob_size=blob_size)
    for i in range(rng.choice([10, 60])):
        s = rng.choice("abcde")
        record = {"_id": f"{case}.{i}", "s": s}
        try:
            writer.append(record)
            accepted.setdefault(s, []).append(record)
        except Injected:
            bad.setdefault(s, []).append(record)
    if mode == "evict":
        if broken & set(accepted):
            until(lambda: counts["faults"] > 1, ticks=300)
        failing["on"] = False
    if mode in ("finalize", "once"):
        failing["on"] = True
    finished = False
    for attempt in range(12):
        try:
            writer.finalize()
            finished = True
            break
        except Injected:
            if attempt == 0 and mode == "finalize" and blob_size > 1000:
                # the other streams aren't affected
                held = bag(stored_records(store))
                for s in set(accepted) - broken:
                    ctx.check(not (bag(accepted[s]) - held), "a failing stream stopped another being stored by finalize", config=config, stream=s)
            if attempt >= 1:
                failing["on"] = False
            if attempt >= 8:
                mode = "off"
    if mode == "finalize" and broken & set(accepted) and blob_size > 1000 and counts["faults"] == 0:
        ctx.violation("finalize with failing storage didn't touch the storage", config=config)
    ctx.check(finished, "finalize didn't succeed once storage had recovered", config=config)
    if finished:
        everything = [r for rs in accepted.values() for r in rs]
        judge(ctx, store, everything, [r for rs in bad.values() for r in rs], "jsonl", config, True, "StreamWriter.finalize returned")
    ctx.count("stream_faults", counts["faults"])
    ctx.count("injected_failures", counts["faults"])
    store.before_put = None
    ctx.seen((config, len(accepted), counts["faults"]), nontrivial=counts["faults"] > 0, sample={**config, "failures": counts["faults"]})


def on_disk(ctx, case):
    """a real file system which refuses: a file is where a folder has to be"""
    from mabel import Reader, Writer
    from mabel.adapters.disk import DiskReader, DiskWriter
    from mabel.data import BatchWriter
    from mabel.errors import DataNotFoundError

    rng = ctx.rng
    root = os.path.join(ctx.scratch, f"disk{case}")
    os.makedirs(root)
    for kind in (Writer, BatchWriter):
        base = os.path.join(root, kind.__name__)
        with open(base, "wb") as f:
            f.write(b"in the way")
        form = rng.choice(["jsonl", "zstd"])
        blob_size = rng.choice([1, 10**6])
        writer = kind(dataset=base + "/ds", format=form, schema=False, date="2021-01-01", inner_writer=DiskWriter, blob_size=blob_size)
        errors, accepted, bad = 0, [], []
        for i in range(5):
            try:
                writer.append({"_id": i})
                accepted.append({"_id": i})
            except OSError:
                errors += 1
                bad.append({"_id": i})
        try:
            writer.finalize()
        except OSError:
            errors += 1
        ctx.check(errors > 0, "writing where nothing can be written was reported as successful", kind=kind.__name__, blob_size=blob_size)
        os.remove(base)
        ok, _ = ctx.guard("finalize once the disk has recovered", writer.finalize)
        if ok:
            try:
                got = list(Reader(dataset=base + "/ds", start_date="2021-01-01", end_date="2021-01-01", inner_reader=DiskReader))
            except DataNotFoundError:
                got = []
            missing = bag(accepted) - bag(got)
            extra = bag(got) - bag(accepted) - bag(bad)
            ctx.check(not missing and not extra, "records lost or repeated after the disk recovered", kind=kind.__name__, got=len(got), blob_size=blob_size)
        ctx.count("disk_failures", errors)
        ctx.seen(("disk", kind.__name__, form, blob_size, case))


def run(ctx):
    ctx.minimum = 60
    ctx.deadline(22, 500)
    for case in range(ctx.n(4, 30)):
        on_disk(ctx, case)
    for case in range(ctx.n(14, 300)):
        streams(ctx, case)
    for case in range(ctx.n(400, 10000)):
        if not ctx.more():
            break
        enumerate_points(ctx, case)
        random_faults(ctx, case)
    ctx.require("injected_failures", 300)
    ctx.require("stream_faults", 4)
    ctx.require("finished_after_failures", 50)
    ctx.require("disk_failures", 2)
