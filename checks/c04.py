"""
One case is a history of batch frames (complete, failed, failed then finalised again, empty,
always_complete, later ignored, out of order, by hour, over several dates). Every storage
operation is a crash point: the store is snapshotted after each one, and a Reader over each
snapshot must return all of the newest completed frame per partition folder or - while a
frame is being written - exactly what it returned before that frame; never part of a frame.
Non-trivial when the history has at least two frames; distinct by history and crash point.
"""

import collections
import datetime

from vf import gen
from vf.clock import frozen as freeze_time
from vf.codec import bag, decode_blob, diff
from vf.store import Store, adapters

LEVEL = "fault_enumeration"
ASSUMPTIONS = [
    "a crash stops the process between storage operations, a put is atomic",
    "frame times are frozen so each frame of a folder has its own name",
]

LAYOUTS = {
    "default": (["year_{yyyy}/month_{mm}/day_{dd}"], ["year_{yyyy}/month_{mm}/day_{dd}"]),
    "short": (["{yyyy}/{mm}/{dd}"], ["{yyyy}/{mm}/{dd}"]),
    "hours": (["year_{yyyy}/month_{mm}/day_{dd}", "by_hour", "hour={HH}"], ["year_{yyyy}/month_{mm}/day_{dd}"]),
    "none": (None, None),
}


def read(ctx, store, dataset, partitions, start, end):
    from mabel import Reader
    from mabel.errors import DataNotFoundError

    _, inner_reader = adapters(store)
    try:
        return list(Reader(dataset=dataset, partitions=partitions, start_date=start, end_date=end, inner_reader=inner_reader))
    except DataNotFoundError:
        return []


def one(ctx, case):
    from mabel.data import BatchWriter

    rng = ctx.rng
    layout = rng.choice(list(LAYOUTS))
    write_parts, read_parts = LAYOUTS[layout]
    form = rng.choice(["jsonl", "zstd", "jsonl", "parquet"])
    schema = [{"name": "_id", "type": "VARCHAR"}, {"name": "v", "type": "INTEGER"}] if form == "parquet" else False
    base = gen.some_date(rng)
    days = [base] if layout == "none" else [base + datetime.timedelta(days=i) for i in range(rng.choice([1, 1, 2, 3]))]
    dataset = rng.choice(["ds/frames", "b/x/y", "b/as_it_was"])
    store = Store()
    inner_writer, _ = adapters(store)

    def slot(day, hour):
        return (day, hour) if layout == "hours" else (day, None)

    # what has been completed: slot -> {as_at: records}
    completed = collections.defaultdict(dict)
    ignored = collections.defaultdict(set)
    history = []
    clock = datetime.datetime(2024, 2, 28, 23, 59, 50)
    used = set()
    frame_folders = {}

    def visible(pending=None):
        """records by day; pending is (slot, as_at, records) taken as complete"""
        out = collections.defaultdict(list)
        slots = set(completed) | ({pending[0]} if pending else set())
        for s in slots:
            frames = {a: r for a, r in completed[s].items()}
            if pending and pending[0] == s:
                frames[pending[1]] = pending[2]
            frames = {a: r for a, r in frames.items() if a not in ignored[s]}
            if frames:
                out[s[0]] += frames[max(frames)]
        return out

    snapshots = []  # (label, store copy, [acceptable views])
    current = {"accept": [visible()], "label": "start"}
    everything_stored = {}

    def after_put(index, name, data):
        if name.endswith("frame.complete") and current.get("pending"):
            # everything accepted must be in storage by now
            s, as_at, records = current["pending"]
            folder = name.rsplit("/", 1)[0]
            frame_folders[(s, as_at)] = folder
            held = [r for n, d in store.data_blobs().items() if n.startswith(folder + "/") for r in decode_blob(n, d)]
            ctx.check(bag(held) == bag(records), "frame flagged complete before all of its records are stored", history=history,
                      **diff(bag(records), bag(held)))
            if not current["may_complete"]:
                ctx.violation("a frame which must not be complete was flagged complete", history=history, flag=name)
        snapshots.append((current["label"] + f"/{index}:{name.rsplit('/', 1)[1]}", store.copy(), list(current["accept"])))

    store.after_put = after_put

    for f in range(rng.randint(1, 6)):
        day, hour = rng.choice(days), rng.randint(0, 23)
        s = slot(day, hour)
        # mostly moving forward, sometimes a frame with an earlier name is written later
        clock += datetime.timedelta(seconds=rng.choice([1, 1, 9, 60, 3600, 5 * 3600, 9 * 3600, 86400, 9 * 86400]))
        at = clock - datetime.timedelta(days=rng.choice([0, 0, 0, 3, 40]))
        as_at = at.strftime("%Y%m%d%H%M%S")
        while as_at in used:
            at += datetime.timedelta(seconds=1)
            as_at = at.strftime("%Y%m%d%H%M%S")
        used.add(as_at)
        kind = rng.choice(["complete", "complete", "complete", "failed", "failed-then-again", "twice", "empty", "empty-complete", "empty-failed", "crashed", "ignored"])
        size = 0 if kind.startswith("empty") else rng.choice([1, 2, 7, 25])
        records = [{"_id": f"{case}.{f}.{i}", "v": i} for i in range(size)]
        history.append({"day": str(day), "hour": hour if layout == "hours" else None, "as_at": as_at, "kind": kind, "records": size})
        will = kind in ("complete", "empty-complete", "twice", "ignored")
        current["label"] = f"frame {f} {kind}"
        current["pending"] = (s, as_at, records)
        current["may_complete"] = will
        current["accept"] = [visible()] + ([visible((s, as_at, records))] if will else [])
        if layout == "none":
            date = day
        else:
            date = datetime.datetime(day.year, day.month, day.day, hour, rng.randint(0, 59))

        state = {"alive": True}

        class Process(inner_writer):
            """nothing a dead process would have stored is stored"""

            def commit(self, *args, **kwargs):
                if state["alive"]:
                    return super().commit(*args, **kwargs)

        def write():
            with freeze_time(at):
                writer = BatchWriter(
                    dataset=dataset, format=form, schema=schema, date=date, partitions=write_parts, inner_writer=Process,
                    blob_size=rng.choice([1, 60, 400, 10**6]), always_complete=kind in ("empty-complete", "empty-failed") or (size > 0 and rng.random() < 0.2),
                )
                for record in records:
                    writer.append(record)
                if kind == "crashed":
                    # some blobs were rolled over, the rest never happens
                    state["alive"] = False
                    return
                said = []
                if "failed" in kind:
                    said.append(writer.finalize(has_failure=True))
                    if kind != "failed":
                        said.append(writer.finalize(has_failure=False))
                        said.append(writer.finalize())
                else:
                    said.append(writer.finalize(**({} if rng.random() < 0.5 else {"has_failure": False})))
                    if kind == "twice":
                        said.append(writer.finalize())
                # a caller is told a frame wasn't completed, and only then
                refused = [answer == -1 for answer in said]
                ctx.check(refused == [not will] * len(said), "finalize didn't say whether the frame was completed",
                          history=history, answers=[repr(a) for a in said])
                ctx.count("answers", len(said))

        ok, _ = ctx.guard("write a frame", write, detail={"history": history, "layout": layout, "format": form})
        if not ok:
            return
        current["pending"] = None
        if will:
            completed[s][as_at] = records
        current["accept"] = [visible()]
        if kind == "ignored" and (s, as_at) in frame_folders:
            folder = frame_folders[(s, as_at)]
            before = visible()
            ignored[s].add(as_at)
            current["label"] = f"frame {f} marked ignored"
            current["accept"] = [visible()]
            store.put(folder + "/frame.ignore", b"")
        snapshots.append((f"frame {f} {kind} done", store.copy(), [visible()]))

    # lookalikes: never complete, share a prefix with real frames
    if frame_folders and rng.random() < 0.5:
        folder = rng.choice(sorted(frame_folders.values()))
        name = rng.choice([folder + "0", folder + "_old", folder[:-1]])
        if name not in frame_folders.values():
            current["label"], current["accept"] = "lookalike", [visible()]
            store.put(name + "/zz-0-0.jsonl", b'{"_id": "lookalike", "v": 0}\n')
            ctx.count("lookalikes")

    for label, twin, accept in snapshots:
        choice = rng.random()
        start, end = (days[0], days[-1]) if choice < 0.6 else (lambda d: (d, d))(rng.choice(days))
        got = bag(read(ctx, twin, dataset, read_parts, start, end))
        wants = [bag([r for d in days if start <= d <= end for r in view.get(d, [])]) for view in accept]
        if got not in wants:
            ctx.violation(
                "a reader saw something other than exactly the newest complete frames", crash_point=label, history=history, layout=layout, format=form,
                dataset=dataset, start=str(start), end=str(end), acceptable=[sum(w.values()) for w in wants], got=sum(got.values()), **diff(wants[-1], got),
            )
            return
        ctx.count("crash_points")
        ctx.seen((layout, form, history, label), nontrivial=len(history) > 1, sample={"layout": layout, "history": history, "crash_point": label})


def concurrent(ctx, case):
    """readers running while a frame is being written"""
    import threading
    import time

    from mabel.data import BatchWriter

    rng = ctx.rng
    store = Store()
    inner_writer, _ = adapters(store)
    frames = []
    done = threading.Event()
    seen = []
    writers = []
    # clocks are only frozen while nothing else is running
    for f in range(4):
        with freeze_time(datetime.datetime(2021, 5, 5, 1, 1, f)):
            writers.append(BatchWriter(dataset="ds/live", format="jsonl", schema=False, date="2021-05-05", inner_writer=inner_writer, blob_size=40))

    def reader():
        while not done.is_set():
            seen.append(frozenset(r["_id"] for r in read(ctx, store, "ds/live", ["year_{yyyy}/month_{mm}/day_{dd}"], "2021-05-05", "2021-05-05")))
            time.sleep(0.0005)

    threads = [threading.Thread(target=reader, daemon=True) for _ in range(2)]
    for t in threads:
        t.start()
    store.before_put = lambda *a: time.sleep(0.001)
    try:
        for f, writer in enumerate(writers):
            records = [{"_id": f"{f}.{i}"} for i in range(30)]
            frames.append(frozenset(r["_id"] for r in records))
            for record in records:
                writer.append(record)
            writer.finalize()
    finally:
        done.set()
    for t in threads:
        t.join(30)
    acceptable = set(frames) | {frozenset()}
    for view in seen:
        if view not in acceptable:
            ctx.violation("a reader running beside a writer saw part of a frame", saw=sorted(view)[:10], size=len(view))
            break
    order = [frames.index(v) for v in seen if v in frames]
    ctx.count("concurrent_reads", len(seen))
    ctx.count("concurrent_states", len(set(seen)))
    ctx.seen(("concurrent", case, len(set(seen))))


def run(ctx):
    ctx.minimum = 60
    ctx.deadline(20, 420)
    for i in range(ctx.n(2, 20)):
        ctx.guard("concurrent readers", concurrent, ctx, i)
    for case in range(ctx.n(500, 20000)):
        if not ctx.more():
            break
        one(ctx, case)
    ctx.require("crash_points", 500)
    ctx.require("concurrent_reads", 5)
    ctx.require("lookalikes", 5)
    ctx.require("answers", 80)
