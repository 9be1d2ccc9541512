"""
One case is one StreamWriter session (or several at once): many appending threads, the
real attendant thread, injected storage latency and a tiny thread switch interval, then
finalize. The oracle is exactly-once over uniquely identified records decoded straight from
storage, per destination folder; no overwrite in the storage log; eviction of exactly the
idle and least recently used streams; and bounded progress measured against a canary
thread. Non-trivial when two or more threads appended and at least one blob was stored;
distinct by configuration and the order in which the threads' commits reached storage.
"""

import collections
import gc
import time

from vf import stress
from vf.codec import decode_blob
from vf.store import StorageFault, Store, adapters

ASSUMPTIONS = [
    "interleavings are sampled by injected delays and a 1 microsecond switch interval",
    "records appended while finalize is running are covered by a second finalize",
]

SCHEMA = [{"name": "_id", "type": "VARCHAR"}, {"name": "k", "type": "VARCHAR"}, {"name": "pad", "type": "VARCHAR"}]


def stored(store):
    """folder -> Counter of ids"""
    out = collections.defaultdict(collections.Counter)
    for name, data in store.data_blobs().items():
        folder = name.rsplit("/", 1)[0]
        for record in decode_blob(name, data):
            out[folder][record["_id"]] += 1
    return out


def make_writer(ctx, store, config, dataset):
    from mabel.data import StreamWriter

    inner, _ = adapters(store)
    return StreamWriter(
        dataset=dataset,
        format=config["format"],
        schema=SCHEMA if config["schema"] else False,
        inner_writer=inner,
        idle_timeout_seconds=config["idle"],
        writer_pool_capacity=config["capacity"],
        blob_size=config["blob_size"],
        date="2022-05-06",
    )


def session(ctx, case, style):
    rng = ctx.rng
    form = rng.choice(["jsonl", "zstd", "parquet"])
    config = {
        "format": form,
        "schema": form == "parquet" or rng.random() < 0.3,
        "idle": rng.choice([0, 0.01, 0.15, 30]),
        "capacity": rng.choice([0, 1, 2, 3, 10]),
        "blob_size": rng.choice([1, 200, 2000, 10**7]),
        "threads": rng.choice([2, 3, 4, 8]),
        "keys": rng.choice([1, 2, 5, 9]),
        "latency": rng.choice([0, 0.0005, 0.003, 0.02]),
        "writers": 1 if style != "many" else rng.choice([2, 3]),
        "style": style,
    }
    per_thread = rng.choice([20, 60, 150]) if config["latency"] < 0.01 else 20
    if style == "slow":
        # storing takes longer than the attendant takes to come round
        config.update(threads=rng.choice([1, 2, 3]), latency=0.25, idle=rng.choice([0, 0, 0.01, 30]), blob_size=rng.choice([1, 1, 60]), capacity=rng.choice([0, 1, 10]), keys=rng.choice([1, 2]))
        per_thread = 4
    if form == "parquet":
        per_thread = min(per_thread, 40)
    store = Store()
    delay = rng.random

    def before(index, name, data):
        if config["latency"]:
            time.sleep(config["latency"] * (delay() if style != "slow" else 0.5 + 0.5 * delay()))

    store.before_put = before
    after_delay = config["latency"] and style != "slow" and rng.random() < 0.5
    if after_delay:
        store.after_put = before

    # some write to the same stream whatever the record is
    plain = [rng.random() < 0.4 for i in range(config["writers"])]
    config["single_stream"] = plain
    datasets = [f"st{i}/ds" if plain[i] else f"st{i}/ds/{{k}}" for i in range(config["writers"])]
    ok, writers = ctx.guard(
        "construct StreamWriter", lambda: [make_writer(ctx, store, config, d) for d in datasets], detail=config
    )
    if not ok:
        return
    expected = collections.defaultdict(collections.Counter)
    appended = [0]
    plans = []
    for t in range(config["threads"]):
        plan = []
        for i in range(per_thread):
            w = rng.randrange(config["writers"])
            k = f"k{rng.randrange(config['keys'])}"
            record = {"_id": f"{case}.{t}.{i}", "k": k, "pad": "x" * rng.randint(0, 40)}
            plan.append((w, record, rng.random() < 0.03))
            expected[f"st{w}/ds/{'' if plain[w] else k + '/'}year_2022/month_05/day_06"][record["_id"]] += 1
        plans.append(plan)

    def appender(plan):
        def inner():
            for w, record, nap in plan:
                writers[w].append(record)
                appended[0] += 1
                if nap:
                    time.sleep(0.02)

        return inner

    functions = [appender(plan) for plan in plans]
    if style == "during":
        # finalize while appends are still going on, then again when they're done
        def finalizer():
            time.sleep(0.01 * delay())
            for w in writers:
                w.finalize()
                appended[0] += 1

        functions.append(finalizer)

    with stress.switch_interval(1e-6):
        errors, stuck = stress.run_threads(functions, progress=lambda: (appended[0], len(store.events)))
        if stuck:
            ctx.violation("appends stopped making progress", config=config, appended=appended[0], stacks=stress.stacks())
            return
        if errors:
            ctx.violation("append raised", config=config, errors={str(k): repr(v) for k, v in errors.items()})
            return
        errors, stuck = stress.run_threads([w.finalize for w in writers], progress=lambda: len(store.events))
    if stuck:
        ctx.violation("finalize stopped making progress", config=config, stacks=stress.stacks())
        return
    if errors:
        ctx.violation("finalize raised", config=config, errors={str(k): repr(v) for k, v in errors.items()})
        return

    def compare(when):
        try:
            got = stored(store)
        except Exception as err:
            ctx.violation(f"a stored blob is torn ({when})", config=config, error=repr(err))
            return
        for folder in set(expected) | set(got):
            lost = expected[folder] - got[folder]
            extra = got[folder] - expected[folder]
            if lost or extra:
                ctx.violation(
                    f"stream records not stored exactly once ({when})", config=config, folder=folder,
                    lost=list(lost.elements())[:5], extra=list(extra.elements())[:5],
                    lost_count=sum(lost.values()), extra_count=sum(extra.values()), blobs=len(store.blobs),
                )
                return

    compare("finalize returned")
    ctx.check(not store.overwrites, "a stored blob was overwritten", config=config, names=[o[0] for o in store.overwrites[:3]])
    # nothing may be added, or changed, later
    del writers
    gc.collect()
    if case % 4 == 0:
        time.sleep(0.15)
    compare("after the writers are gone")
    order = [e[3] for e in store.ops("stored")]
    names = {}
    shape = [names.setdefault(t, len(names)) for t in order]
    ctx.count("blobs", len(order))
    ctx.count("records", sum(sum(c.values()) for c in expected.values()))
    ctx.count("evicted_by_attendant_or_rollover_before_finalize", sum(1 for s in shape if s != shape[-1]) if shape else 0)
    if config["blob_size"] < 10**7:
        ctx.count("sessions_with_rollover")
    if style == "slow":
        ctx.count("sessions_with_slow_storage")
    ctx.seen((config, shape), nontrivial=bool(order), sample={**config, "blobs": len(order), "commit_order_by_thread": shape[:12]})


def lru(ctx, case):
    """capacity eviction takes the least recently used stream, and only those over capacity"""
    rng = ctx.rng
    capacity = rng.choice([2, 3, 4]) if case == 2 else rng.choice([1, 2, 3, 4]) if case else 1
    over = 2 * capacity + 1 if case == 1 else rng.randint(1, capacity - 1) if case == 2 else rng.randint(0 if case else 1, 2 * capacity + 1)
    store = Store()
    config = dict(format="jsonl", schema=False, idle=10**6, capacity=capacity, blob_size=10**7)
    writer = make_writer(ctx, store, config, "lru/{k}")
    keys = [f"k{i}" for i in range(capacity + over)]
    first = keys[:capacity]
    rng.shuffle(first)
    # fill to capacity, touch in a random order, then go over capacity
    n = 0
    touched = []
    plan = first + [rng.choice(first) for _ in range(rng.randint(0, 6))] + ([first[0]] if case == 2 else []) + keys[capacity:]
    for k in plan:
        writer.append({"_id": f"{case}.{n}", "k": k})
        n += 1
        if k in touched:
            touched.remove(k)
        touched.append(k)
        time.sleep(0.002)
    victims = set(touched[:over])

    def folders():
        return {name.split("/")[1] for name in store.data_blobs()}

    met = stress.until(lambda: folders() >= victims, ticks=3000)
    ctx.check(met, "streams over capacity were not stored while writing goes on", capacity=capacity, plan=plan, stored=sorted(folders()), victims=sorted(victims))
    # a few more cycles of the attendant must not evict anyone else
    time.sleep(0.35)
    ctx.check(folders() == victims, "streams other than the least recently used over capacity were stored", capacity=capacity, plan=plan,
              stored=sorted(folders()), victims=sorted(victims))
    # a stream which comes back after being evicted keeps both parts
    if victims:
        back = sorted(victims)[0]
        writer.append({"_id": f"{case}.back", "k": back})
        n += 1
        # which is one over capacity again
        victims.add(touched[over])
        met = stress.until(lambda: folders() >= victims, ticks=3000)
        ctx.check(met, "a stream over capacity wasn't stored after another came back", capacity=capacity, plan=plan, back=back, stored=sorted(folders()), victims=sorted(victims))
        time.sleep(0.25)
        ctx.check(folders() == victims, "streams other than the least recently used over capacity were stored", capacity=capacity, plan=plan, back=back,
                  stored=sorted(folders()), victims=sorted(victims))
    writer.finalize()
    got = stored(store)
    total = sum(sum(c.values()) for c in got.values())
    ctx.check(total == n and all(v == 1 for c in got.values() for v in c.values()), "eviction lost or repeated records", capacity=capacity, plan=plan, appended=n, stored=total)
    ctx.count("capacity_evictions", len(victims))
    ctx.seen(("lru", capacity, plan), sample={"capacity": capacity, "appends": plan, "evicted": sorted(victims)})


def idle(ctx, case):
    """idle streams are stored without finalize, busy ones are not"""
    rng = ctx.rng
    timeout = rng.choice([1, 2])
    store = Store()
    config = dict(format=rng.choice(["jsonl", "zstd"]), schema=False, idle=timeout, capacity=10, blob_size=20_000)
    writer = make_writer(ctx, store, config, "idle/{k}")
    busy = 0
    # a store which is slow, or fails, once doesn't end the attendant's work
    trouble = rng.choice(["slow", "fails", "full", None]) if case > 1 else ["full", "fails"][case]
    state = {"trouble": trouble}
    troubled = 0

    def before(index, name, data):
        what, state["trouble"] = state["trouble"], None
        if what == "slow":
            time.sleep(1.6)
        elif what == "full":
            time.sleep(2.6)  # in an append, the attendant has to wait
        elif what == "fails":
            raise StorageFault("once")

    if trouble:
        store.before_put = before
        while troubled == 0 or (trouble == "full" and state["trouble"] and troubled < 20):
            writer.append({"_id": "t", "k": "trouble", "pad": "%012000x" % rng.getrandbits(47000) if trouble == "full" else ""})
            troubled += 1
        stress.until(lambda: state["trouble"] is None, ticks=3000)
        if trouble != "fails":
            stress.until(lambda: any("/trouble/" in name for name in store.data_blobs()), ticks=3000)
    writer.append({"_id": "a", "k": "quiet"})
    writer.append({"_id": "b", "k": "silent"})

    def folders():
        return {name.split("/")[1] for name in store.data_blobs()}

    gaps, last = [], time.monotonic()
    canary = stress.Canary()
    while not {"quiet", "silent"} <= folders() and canary.ticks < 3000:
        before = time.monotonic()
        writer.append({"_id": f"busy{busy}", "k": "busy"})
        gaps.append(time.monotonic() - last)
        last = before
        busy += 1
        time.sleep(0.03)
    canary.stop()
    ctx.check({"quiet", "silent"} <= folders(), "idle streams were not stored by the attendant", timeout=timeout, before=trouble, stored=sorted(folders()))
    if max(gaps) < timeout * 0.5:
        ctx.check("busy" not in folders(), "a stream in use was evicted as idle", timeout=timeout, max_gap=max(gaps))
    writer.append({"_id": "c", "k": "quiet"})
    writer.finalize()
    got = collections.Counter()
    for c in stored(store).values():
        got.update(c)
    want = collections.Counter(["a", "b", "c"] + ["t"] * troubled + [f"busy{i}" for i in range(busy)])
    ctx.check(got == want, "idle eviction lost or repeated records", lost=list((want - got).elements())[:5], extra=list((got - want).elements())[:5])
    ctx.count("idle_evictions", 2)
    ctx.seen(("idle", timeout, case), sample={"timeout": timeout, "busy_appends": busy})


def run(ctx):
    ctx.minimum = 15
    ctx.deadline(32, 500)
    # the eviction observations mostly sleep, so share one thread each
    for case in range(ctx.n(4, 40)):
        lru(ctx, case)
    for case in range(ctx.n(2, 10)):
        idle(ctx, case)
    case = 0
    while ctx.more() and case < ctx.n(70, 5000):
        session(ctx, case, ["plain", "slow", "during", "many", "plain"][case % 5])
        case += 1
    ctx.require("blobs", 100)
    ctx.require("capacity_evictions", 1)
    ctx.require("idle_evictions", 1)
    ctx.require("sessions_with_slow_storage", 2)
