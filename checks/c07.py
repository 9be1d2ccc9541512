"""
Every put is monitored: a data blob's name must be new, its payload must decode to whole
records, be non-empty, and - for the text based formats - hold at most the blob size plus
one record, with a new blob started only once the size was passed. Cases are single writers
with sizes around the limit (including records larger than the limit and non-ASCII text),
many writers of one dataset in concurrent threads, several processes writing one folder,
all under a running, a coarse and a still clock. Non-trivial when a case stored at least two
blobs; distinct by configuration and the sizes of its blobs.
"""

import datetime
import os
import subprocess
import sys
import threading

from vf import gen
from vf.clock import frozen
from vf.codec import bag, decode_blob, diff, payload
from vf.store import Store, adapters
from vf.stress import run_threads, switch_interval

ASSUMPTIONS = [
    "the size of parquet blobs isn't limited by the payload but by an estimate, only that they're not empty is judged",
    "streams may start a blob early when they're evicted, so only their upper limit is judged",
]


def watch(ctx, store, config):
    def before(index, name, data):
        if "/frame." in name:
            return
        ctx.count("blobs")
        ctx.check(name not in store.blobs, "a blob overwrote an earlier blob", config=config, blob=name)
        records = decode_blob(name, data)
        ctx.check(len(records) > 0, "an empty data blob was stored", config=config, blob=name)

    store.before_put = before


def sizes_of(store, form):
    out = []
    for name, data in store.data_blobs().items():
        text = payload(name, data)
        out.append((name, len(text), len(text.split(b"\n")[-2]) + 1 if text.endswith(b"\n") else None))
    return out


def single(ctx, case):
    from mabel import Writer
    from mabel.data import BatchWriter, StreamWriter

    rng = ctx.rng
    form = rng.choice(["jsonl", "zstd", "flat", "text", "parquet"])
    kind = rng.choice([Writer, BatchWriter, StreamWriter])
    blob_size = rng.choice([1, 10, 11, 64, 100, 1000, 4096])
    still = rng.random() < 0.5
    config = dict(form=form, kind=kind.__name__, blob_size=blob_size, still=still)
    store = Store()
    inner_writer, _ = adapters(store)
    watch(ctx, store, config)
    schema = [{"name": "_id", "type": "VARCHAR"}, {"name": "v", "type": "VARCHAR"}] if form == "parquet" else False
    extra = {"idle_timeout_seconds": 600, "writer_pool_capacity": 100} if kind is StreamWriter else {}
    records = []
    for i in range(rng.choice([1, 2, 10, 60])):
        filler = rng.choice(["", "x" * rng.randint(0, 20), "é漢😀" * rng.randint(0, 6), "y" * blob_size, "z" * max(0, blob_size - 15)])
        if form == "text":
            records.append(rng.choice([f"{case}.{i} {filler}", f"{case}.{i} {filler}".encode()]))
        else:
            records.append({"_id": f"{case}.{i}", "v": filler})
    # exact fits: the payload is exactly the limit, one under, one over

    def write():
        writer = kind(dataset="ds/size", format=form, schema=schema, date="2021-01-01", inner_writer=inner_writer, blob_size=blob_size, **extra)
        for record in records:
            writer.append(record)
        writer.finalize()

    if still:
        with frozen(datetime.datetime(2021, 1, 1, 3, 4, 5)):
            ok, _ = ctx.guard("write", write, detail=config)
    else:
        ok, _ = ctx.guard("write", write, detail=config)
    if not ok:
        return
    want = bag([r.encode() if isinstance(r, str) else r for r in records] if form == "text" else records)
    held = [r for name, data in store.data_blobs().items() for r in decode_blob(name, data)]
    ctx.check(bag(held) == want, "records were split, lost or overwritten", config=config, **diff(want, bag(held)))
    sizes = []
    if form == "parquet" and kind is not StreamWriter and sum(len(r["v"].encode()) for r in records) > 20 * blob_size + 1000:
        # how the size of a parquet blob is estimated isn't specified, that there's a limit is
        ctx.check(len(store.data_blobs()) > 1, "a blob many times the blob size was stored", config=config, records=len(records),
                  size=sum(len(r["v"].encode()) for r in records))
        ctx.count("parquet_rollovers", len(store.data_blobs()) - 1)
    if form != "parquet":
        blobs = sizes_of(store, form)
        for position, (name, size, last) in enumerate(blobs):
            sizes.append(size)
            if last is None:
                ctx.violation("a blob ends part way through a record", config=config, blob=name)
                continue
            ctx.check(size - last <= blob_size, "a blob is over the blob size by more than one record", config=config, size=size, last_record=last)
            # anything but the last blob must have passed the limit
            if position < len(blobs) - 1 and kind is not StreamWriter:
                ctx.check(size > blob_size, "a new blob was started before the limit was passed", config=config, size=size, blob=position, blobs=len(blobs))
                ctx.count("rollovers")
            elif position < len(blobs) - 1:
                ctx.count("rollovers")
    ctx.seen((config, sizes), nontrivial=len(store.data_blobs()) > 1, sample={**config, "blob_sizes": sizes[:8]})


def concurrent(ctx, case):
    from mabel import Writer
    from mabel.data import StreamWriter

    rng = ctx.rng
    store = Store()
    inner_writer, _ = adapters(store)
    config = dict(case=case, threads=8, still=case % 2 == 0)
    watch(ctx, store, config)
    stream = case % 3 == 2
    made = []

    def make(**kwargs):
        if stream:
            writer = StreamWriter(dataset="ds/many", format="jsonl", schema=False, date="2021-01-01", inner_writer=inner_writer, blob_size=20, idle_timeout_seconds=0)
        else:
            writer = Writer(dataset="ds/many", format="jsonl", schema=False, date="2021-01-01", inner_writer=inner_writer, blob_size=20)
        made.append(writer)
        return writer

    want = 8 * 60

    def worker(t):
        def inner():
            writer = make()
            for i in range(60):
                writer.append({"_id": f"{t}.{i}"})
            writer.finalize()
        return inner

    def go():
        with switch_interval(1e-5):
            return run_threads([worker(t) for t in range(8)], progress=lambda: store.puts)

    if config["still"]:
        with frozen(datetime.datetime(2021, 1, 1, 3, 4, 5)):
            errors, stuck = go()
    else:
        errors, stuck = go()
    ctx.check(not errors and not stuck, "concurrent writers failed", config=config, errors={k: repr(v) for k, v in errors.items()}, stuck=stuck)
    held = [r["_id"] for name, data in store.data_blobs().items() for r in decode_blob(name, data)]
    ctx.check(len(held) == want and len(set(held)) == want, "concurrent writers lost or repeated records", config=config, want=want, held=len(held),
              distinct=len(set(held)))
    ctx.check(not store.overwrites, "a blob overwrote another", config=config, names=[n for n, _, _ in store.overwrites[:3]])
    ctx.count("concurrent_blobs", len(store.data_blobs()))
    ctx.seen(("threads", config, len(store.data_blobs())), sample={**config, "blobs": len(store.data_blobs())})


CHILD = """
import sys, datetime
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
from vf.core import quiet_logging
from vf.clock import frozen
from mabel import Writer
from mabel.adapters.disk import DiskWriter
quiet_logging()
who, folder, mode = sys.argv[3], sys.argv[4], sys.argv[5]
def go(who, writer=None):
    if writer is None:
        writer = Writer(dataset=folder + "/ds", format="jsonl", schema=False, date="2021-01-01", inner_writer=DiskWriter, blob_size=10)
    for i in range(50):
        writer.append({"_id": who + "." + str(i)})
    writer.finalize()
import os
def both():
    if mode in ("fork", "inherit"):
        # a writer was used before the process forked
        first = Writer(dataset=folder + "/ds", format="jsonl", schema=False, date="2021-01-01", inner_writer=DiskWriter, blob_size=10)
        first.append({"_id": who + ".before"})
        first.finalize()
        pid = os.fork()
        # each of the processes uses a writer of its own, or its copy of the one there was
        go(who + ("p" if pid else "c"), first if mode == "inherit" else None)
        if not pid:
            os._exit(0)
        os.waitpid(pid, 0)
    else:
        go(who)
with frozen(datetime.datetime(2021, 1, 1, 3, 4, 5)):
    both()
sys.stdout.flush()
os._exit(0)
"""


def processes(ctx, case):
    """several processes, all of whose clocks say the same"""
    from vf import core

    folder = os.path.join(ctx.scratch, f"procs{case}")
    os.makedirs(folder)
    mode = ["plain", "fork", "inherit"][case % 3]
    running = [
        subprocess.Popen([sys.executable, "-c", CHILD, ctx.root, core.REPO, f"w{i}", folder, mode], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        for i in range(4)
    ]
    failures = []
    for process in running:
        try:
            _, err = process.communicate(timeout=240)
        except subprocess.TimeoutExpired:
            process.kill()
            from vf.core import Inconclusive

            raise Inconclusive("a writing process didn't finish")
        if process.returncode != 0:
            failures.append(err.decode()[-800:])
    ctx.check(not failures, "a process couldn't write", failures=failures)
    held = []
    for at, _, files in os.walk(folder):
        for name in files:
            with open(os.path.join(at, name), "rb") as f:
                data = f.read()
            ctx.check(len(data) > 0, "an empty data blob was stored", blob=name)
            held += [r["_id"] for r in decode_blob(name, data)]
            ctx.count("blobs")
    want = {f"w{i}.{n}" for i in range(4) for n in range(50)}
    if mode != "plain":
        want = {f"w{i}{w}.{n}" for i in range(4) for n in range(50) for w in "pc"} | {f"w{i}.before" for i in range(4)}
    ctx.check(sorted(held) == sorted(want), "processes with the same clock overwrote each other's blobs", mode=mode, want=len(want), held=len(held), distinct=len(set(held)))
    ctx.count("process_cases")
    ctx.seen(("processes", mode, case), sample={"processes": 4, "mode": mode, "records": len(held)})


def still_clock(ctx):
    """very many blobs while the clock says the same"""
    store = Store()
    inner_writer, _ = adapters(store)
    names = set()
    total = ctx.n(70_000, 2_200_000)
    with frozen(datetime.datetime(2021, 1, 1, 3, 4, 5)):
        writers = [inner_writer(dataset="ds/still", format="jsonl") for _ in range(2)]
        build = getattr(writers[0], "_build_path", None)
        for i in range(total if build else 5000):
            # building the name is the part which is to tell blobs apart
            names.add(writers[i % 2]._build_path() if build and i % 50 else writers[i % 2].commit(b"{}\n"))
    ctx.check(len(names) == (total if build else 5000), "blobs of one moment have the same name", names=len(names), wanted=total)
    ctx.count("names_of_one_moment", len(names))
    ctx.seen(("still", total))


def run(ctx):
    ctx.minimum = 60
    ctx.deadline(18, 420)
    for case in range(ctx.n(3, 12)):
        processes(ctx, case)
    still_clock(ctx)
    for case in range(ctx.n(6, 60)):
        concurrent(ctx, case)
    for case in range(ctx.n(700, 20000)):
        if not ctx.more():
            break
        single(ctx, case)
    ctx.require("rollovers", 300)
    ctx.require("parquet_rollovers", 10)
    ctx.require("concurrent_blobs", 300)
    ctx.require("process_cases", 1)
