"""
One case is a set of date folders holding by_ partitionings (one to three, their names
prefixes of each other or not, some days without any), each value with frames that are
complete, incomplete, ignored, or no frames at all. Reads with and without partition_filter
are compared with a model of which blobs are readable. Non-trivial when blobs had to be left
out; distinct by layout and filter.
"""

import datetime
import json

from vf import gen
from vf.codec import bag, diff
from vf.store import Store, adapters

ASSUMPTIONS = [
    "partition fields are named with letters, digits and underscores, values are reduced to letters, digits and white space as writers do",
    "folders of the dataset name itself don't start by_ or as_at_",
]

FIELDS = ["hour", "ho", "user", "user_id", "id", "a", "b", "Region", "hour2"]


def one(ctx, case):
    from mabel import Reader
    from mabel.errors import DataNotFoundError

    rng = ctx.rng
    base = gen.some_date(rng)
    days = [base + datetime.timedelta(days=i) for i in range(rng.choice([1, 1, 2, 3]))]
    dataset = rng.choice(["ds/parts", "b/x/standby_me", "b/baby_x/y"])
    fields = rng.sample(FIELDS, rng.randint(1, 3))
    store = Store()
    inner_reader = adapters(store)[1]
    uid = 0
    # (day, field) -> value -> readable [(name, records)]
    readable = {}
    total = 0
    # values often have frames of the same time
    times = [f"as_at_2021010{rng.randint(1, 3)}-{rng.randint(0, 235959):06d}" for _ in range(rng.randint(2, 4))]

    def blob(folder):
        nonlocal uid, total
        name = f"{folder}/{rng.getrandbits(32):x}.jsonl"
        records = []
        for _ in range(rng.choice([1, 1, 3])):
            uid += 1
            records.append({"_id": uid})
        store.put(name, b"".join(json.dumps(r).encode() + b"\n" for r in records))
        total += len(records)
        return name, records

    for day in days:
        root = f"{dataset}/year_{day:%Y}/month_{day:%m}/day_{day:%d}"
        here = [f for f in fields if rng.random() < 0.8]
        if not here:
            readable[(day, None)] = {None: [blob(root) for _ in range(2)]}
            continue
        for field in here:
            values = rng.sample(["00", "01", "1", "10", "alpha", "Alpha", "two words", "None"], rng.randint(1, 3))
            readable[(day, field)] = {}
            for value in values:
                folder = f"{root}/by_{field}/{field}={value}"
                out = []
                if rng.random() < 0.4:
                    out = [blob(folder) for _ in range(rng.randint(1, 2))]
                else:
                    frames = sorted(rng.choice(times) for _ in range(rng.randint(1, 3)))
                    for frame in dict.fromkeys(frames):
                        held = [blob(f"{folder}/{frame}") for _ in range(rng.randint(1, 2))]
                        state = rng.choice(["complete", "complete", "incomplete", "ignored", "ignored-incomplete"])
                        if "incomplete" not in state:
                            store.put(f"{folder}/{frame}/frame.complete", b"")
                        if "ignored" in state:
                            store.put(f"{folder}/{frame}/frame.ignore", b"")
                        if state == "complete":
                            out = held
                        ctx.count(f"frames_{state}")
                readable[(day, field)][value] = out

    queries = [None] * 1
    for _ in range(4):
        field = rng.choice(fields + FIELDS)
        value = rng.choice(["00", "01", "1", "10", "alpha", "two words", "0", "ALPHA", "missing", "al-pha", "0_1", " 01", "alpha ", "two  words", "twowords"])
        queries.append((field, rng.choice(["=", "=="]), value))
    for query in queries:
        expected = []
        for day in days:
            here = sorted(f for d, f in readable if d == day and f is not None)
            if not here:
                expected += readable[(day, None)][None]
                continue
            if query and query[0] in here:
                value = "".join(c for c in query[2] if c.isalnum() or c.isspace())
                expected += readable[(day, query[0])].get(value, [])
            else:
                # by name of the folder
                last = max(here, key=lambda f: f"by_{f}")
                for held in readable[(day, last)].values():
                    expected += held
        want = [r for _, rs in sorted(expected) for r in rs]
        detail = dict(query=query, dataset=dataset, layout={f"{d} {f}": {v: len(h) for v, h in p.items()} for (d, f), p in readable.items()})
        kwargs = {"partition_filter": query} if query else {}

        def read():
            try:
                return list(Reader(dataset=dataset, start_date=days[0], end_date=days[-1], inner_reader=inner_reader, **kwargs))
            except DataNotFoundError:
                return DataNotFoundError

        ok, got = ctx.guard("read", read, detail=detail)
        if not ok:
            return
        if not expected:
            ctx.check(got is DataNotFoundError or got == [], "records were read though none are readable", got=str(got)[:200], **detail)
        elif got is DataNotFoundError:
            ctx.violation("nothing was read though there are readable records", expected=len(want), **detail)
        else:
            ctx.check(got == want, "a read of by_ partitionings returned the wrong records", blobs=sorted(store.blobs)[:60], **detail, **diff(bag(want), bag(got)))
            ctx.count("filtered_reads" if query else "reads")
            if query and any(f == query[0] for _, f in readable):
                ctx.count("pruned_reads")
        ctx.seen((detail, len(want)), nontrivial=len(want) < total, sample=detail)

    # anything but equals is refused
    for operator in ("!=", "<", ">", "<=", ">=", "in", "like", "<>"):
        if not any(f for _, f in readable):
            break
        try:
            list(Reader(dataset=dataset, start_date=days[0], end_date=days[-1], inner_reader=inner_reader, partition_filter=(fields[0], operator, "01")))
        except NotImplementedError:
            ctx.count("refused_operators")
        except Exception as err:
            ctx.violation("an operator other than equals failed for the wrong reason", operator=operator, error=repr(err))
        else:
            ctx.violation("a partition_filter operator other than equals wasn't refused", operator=operator)


def hourly(ctx, case):
    """hours written by BatchWriters, rewritten in any order: each hour has its own newest frame"""
    from mabel import Reader
    from mabel.data import BatchWriter
    from vf.clock import frozen

    rng = ctx.rng
    store = Store()
    inner_writer, inner_reader = adapters(store)
    newest = {}
    for n in range(rng.randint(2, 7)):
        hour = rng.choice([0, 1, 10, 23])
        at = datetime.datetime(2022, 3, 4, 5, 6, 7) + datetime.timedelta(seconds=n)
        with frozen(at):
            writer = BatchWriter(dataset="ds/hourly", format="jsonl", schema=False, inner_writer=inner_writer, date=f"2022-03-03 {hour:02d}:30",
                                 partitions=["year_{yyyy}/month_{mm}/day_{dd}", "by_hour", "hour={HH}"])
            records = [{"_id": f"{n}.{i}"} for i in range(3)]
            for record in records:
                writer.append(record)
            failed = rng.random() < 0.3
            writer.finalize(has_failure=failed)
        if not failed:
            newest[f"{hour:02d}"] = records
    if not newest:
        return
    for query in [None, ("hour", "=", rng.choice(["00", "01", "10", "23"]))]:
        want = [r for h, rs in sorted(newest.items()) if query is None or h == query[2] for r in rs]
        try:
            got = list(Reader(dataset="ds/hourly", start_date="2022-03-03", end_date="2022-03-03", inner_reader=inner_reader, partition_filter=query))
        except Exception as err:
            got = [type(err).__name__]
        if want or query is None:
            ctx.check(got == want, "hours didn't each use their own newest complete frame", query=query, want=want, got=got)
        ctx.seen(("hourly", query, want), sample={"hours": sorted(newest), "query": query})
    ctx.count("hourly")


def run(ctx):
    ctx.minimum = 100
    ctx.deadline(14, 420)
    for case in range(ctx.n(900, 20000)):
        if not ctx.more():
            break
        one(ctx, case)
        if case % 10 == 0:
            ctx.guard("hourly batches", hourly, ctx, case)
    ctx.require("pruned_reads", 100)
    ctx.require("refused_operators", 50)
    ctx.require("frames_ignored", 50)
    ctx.require("hourly", 10)
