"""
One case is a dataset written and read through the MinIO or Google Cloud Storage adapters, over
stand-ins for their client libraries which log every call: a writer history (Writer, BatchWriter
with several frames, StreamWriter) among other buckets, lookalike folders and folder markers;
the same history with calls failing, for a while or for ever; blobs of any bytes and names
committed and got one by one; and readings of prepared layouts. The disk adapter's blobs and listings are compared with the files. Everything is also done over the
harness's own storage, and both have to have the same blobs in the same folders. Non-trivial
when objects were stored and read; distinct by configuration and outcome.
"""

import datetime
import gc
import pathlib
import re
import shutil

from checks.c01 import PARTITIONS
from vf import gen
from vf.codec import bag, decode_blob, diff, typed
from vf.objects import Objects, installed
from vf.store import Store, adapters

ASSUMPTIONS = [
    "the client libraries are replaced by stand-ins with the documented semantics of the calls used",
    "an object's name is anything without a slash at its start or end, empty parts, or a part which is a dot, and in a folder",
    "an upload whose answer was lost may be stored again",
]

DATASETS = ["bucket/events", "bucket/a/b/c", "bucket/data_set-1/x_y", "bucket/with space/n", "bucket/ünï", "bucket/v1/x.y/z", "other-bucket.name/ds"]


def folders(names):
    """how many blobs of each kind are in each folder"""
    out = {}
    for name in names:
        folder, _, file = name.rpartition("/")
        folder = re.sub(r"as_at_\d{8}-\d{6}", "as_at", folder)
        key = folder + "/" + (file if file.startswith("frame.") else "*." + file.split(".", 1)[1])
        out[key] = out.get(key, 0) + 1
    return out


def litter(rng, objects, dataset, day):
    """things in the storage which aren't this dataset's"""
    bucket, _, path = dataset.partition("/")
    noise = b'{"_id": "noise"}\n'
    date = day.strftime("year_%Y/month_%m/day_%d")
    others = {
        (bucket, f"{path}_copy/{date}/noise.jsonl"),
        (bucket, f"{path}2/{date}/noise.jsonl"),
        (bucket, f"x{path}/{date}/noise.jsonl"),
        (bucket, f"copy/{path}/{date}/noise.jsonl"),
        (bucket, f"{bucket}/{path}/{date}/noise.jsonl"),
        (bucket, f"{path}-{date}/noise.jsonl"),
        (bucket, f"{path}/{date}9/noise.jsonl"),
        ("spare", f"{path}/{date}/noise.jsonl"),
        (bucket + "2", f"{path}/{date}/noise.jsonl"),
        (bucket, "noise.jsonl"),
    }
    for name, blob in rng.sample(sorted(others), rng.randint(1, len(others))):
        objects.buckets.setdefault(name, {})[blob] = noise
    # the markers consoles make for empty folders
    for marker in (f"{path}/", f"{path}/{date}/", f"{path}/{date}/empty/", f"{path}/{date}.jsonl/"):
        if rng.random() < 0.5:
            objects.buckets[bucket][marker] = b""


def history(ctx, case):
    from mabel import Reader, Writer
    from mabel.data import BatchWriter, StreamWriter
    from vf.clock import frozen

    rng = ctx.rng
    objects = Objects()
    which = rng.choice(["minio", "google"])
    dataset = rng.choice(DATASETS)
    bucket, _, path = dataset.partition("/")
    objects.buckets = {bucket: {}, "unused": {}}
    kind = rng.choice([Writer, Writer, BatchWriter, BatchWriter, StreamWriter])
    form = rng.choice(["jsonl", "zstd", "parquet"])
    day = gen.some_date(rng)
    schema = [{"name": "_id", "type": "VARCHAR"}, {"name": "n", "type": "INTEGER"}] if form == "parquet" or kind is StreamWriter else False
    partitions = rng.choice([p for p in PARTITIONS if p])
    if kind is StreamWriter:
        partitions = ["year_{yyyy}/month_{mm}/day_{dd}"]
    frames = rng.choice([1, 1, 2, 3]) if kind is BatchWriter else 1
    plan = []
    for f in range(frames):
        plan.append({
            "records": [{"_id": f"{case}-{f}-{i}", "n": rng.choice(gen.INTS)} for i in range(rng.choice([0, 1, 3, 12]))],
            "failed": kind is BatchWriter and rng.random() < 0.2,
            "always": kind is BatchWriter and rng.random() < 0.3,
        })
    blob_size = rng.choice([1, 120, None])
    litter(rng, objects, dataset, day)
    before = {(b, n) for b in objects.buckets for n in objects.buckets[b]}
    detail = dict(adapter=which, kind=kind.__name__, dataset=dataset, form=form, day=str(day), partitions=partitions, blob_size=blob_size,
                  frames=[(len(p["records"]), p["failed"], p["always"]) for p in plan])
    store = Store()
    MemWriter, MemReader = adapters(store)

    with installed(objects) as (kinds, clock):
        writer_class, reader_class, credentials = kinds[which]

        def write(inner, extra):
            counts = []
            for f, frame in enumerate(plan):
                with frozen(datetime.datetime(2024, 3, 1, 10, 0, f)):
                    kwargs = dict(dataset=dataset, format=form, schema=schema, date=day, partitions=partitions, inner_writer=inner, **extra)
                    if blob_size:
                        kwargs["blob_size"] = blob_size
                    if kind is BatchWriter:
                        kwargs["always_complete"] = frame["always"]
                    writer = kind(**kwargs)
                    for record in frame["records"]:
                        writer.append(dict(record))
                    counts.append((writer.finalize(has_failure=True) if frame["failed"] else writer.finalize()) == -1)
            return counts

        ok, counts = ctx.guard("write through the adapter", write, writer_class, credentials, detail=detail)
        if not ok:
            return
        same = write(MemWriter, {})
        ctx.check(counts == same, "finalize didn't complete what it does over other storage, or the other way around", failed=counts, elsewhere=same, **detail)

        new = {(b, n) for b in objects.buckets for n in objects.buckets[b]} - before
        ours = {f"{b}/{n}" for b, n in new}
        ctx.check(all(b == bucket for b, n in new), "objects in another bucket", objects=sorted(new)[:5], **detail)
        ctx.check(folders(ours) == folders(store.blobs), "objects aren't in the folders they're in on other storage",
                  here=folders(ours), there=folders(store.blobs), **detail)
        ctx.check(not objects.overwrites, "objects were overwritten", overwritten=objects.overwrites[:3], **detail)
        stored = [r for b, n in sorted(new) if "/frame." not in n for r in decode_blob(n, objects.buckets[b][n])]
        everything = [r for f in plan for r in f["records"]]
        ctx.check(bag(stored) == bag(everything), "the storage doesn't have exactly the records", **detail, **diff(bag(everything), bag(stored)))
        ctx.count("objects", len(new))

        def read(inner, extra):
            when = f"{day} 00:00"
            try:
                return [dict(r) for r in Reader(dataset=dataset, partitions=partitions, start_date=when, end_date=when, inner_reader=inner, **extra)]
            except Exception as err:
                if type(err).__name__ != "DataNotFoundError":
                    raise
                return "no data"

        if not any("{HH}" in p for p in partitions) or type(day) is datetime.date:
            ok, got = ctx.guard("read through the adapter", read, reader_class, credentials, detail=detail)
            if not ok:
                return
            want = read(MemReader, {})
            if want == "no data" or got == "no data":
                ctx.check(got == want, "only one of the storages had data", here=str(got)[:200], there=str(want)[:200], **detail)
            else:
                ctx.check([typed(r) for r in got] == [typed(r) for r in want], "read something else than over other storage", **detail, **diff(bag(want), bag(got)))
                ctx.count("records_read", len(got))
        if kind is BatchWriter:
            ctx.count("frames", frames)
        ctx.check(objects.opened == objects.closed, "a response wasn't closed", opened=objects.opened, closed=objects.closed, **detail)
        ctx.count("histories")
        ctx.count(which)
        ctx.seen(detail, nontrivial=bool(new), sample=detail)


def faults(ctx, case):
    """calls which fail while writing or listing"""
    from google.api_core.exceptions import Forbidden, InternalServerError, NotFound, TooManyRequests
    from urllib3.exceptions import ProtocolError

    from mabel import Reader, Writer
    from mabel.data import BatchWriter

    rng = ctx.rng
    objects = Objects()
    which = rng.choice(["minio", "google", "google"])
    # a writer which failed tries again when it is collected, that must not end up in other cases
    bucket = f"bucket-{case}"
    objects.buckets = {bucket: {}}
    transient = rng.random() < 0.6
    error = rng.choice([ConnectionResetError("reset"), ProtocolError("broken"), InternalServerError("oops"), TooManyRequests("slow down")] if transient
                       else [Forbidden("no"), NotFound("gone"), OSError("disk"), ValueError("odd"), RuntimeError("boom"), TimeoutError("late"), KeyError("x")])
    call = rng.choice(["put", "put", "put", "put", "stored", "bucket", "list"])
    first = rng.choice([0, 0, 1, 2, 5])
    length = rng.choice([1, 1, 2, 4, 10**9])
    state = {"calls": 0, "raised": 0}

    def fault(what, _, name):
        if what == call:
            index = state["calls"]
            state["calls"] += 1
            if first <= index < first + length:
                state["raised"] += 1
                raise error

    kind = rng.choice([Writer, BatchWriter])
    records = [{"_id": f"{case}-{i}", "v": gen.word(rng)} for i in range(rng.choice([1, 3, 8]))]
    detail = dict(adapter=which, kind=kind.__name__, call=call, error=repr(error), transient=transient, first=first, length=length, records=len(records))

    def caused(err):
        seen = set()
        while err is not None and id(err) not in seen:
            if err is error:
                return True
            seen.add(id(err))
            err = err.__cause__ or err.__context__
        return False

    with installed(objects) as (kinds, clock):
        writer_class, reader_class, extra = kinds[which]
        errors = []
        accepted = []
        writer = kind(dataset=f"{bucket}/ds", format="jsonl", schema=False, date="2024-01-01", partitions=["{yyyy}-{mm}-{dd}"], blob_size=rng.choice([1, 30, 10**6]),
                      inner_writer=writer_class, **extra)
        objects.fault = fault
        for record in records:
            try:
                writer.append(record)
                accepted.append(record)
            except Exception as err:
                errors.append(err)
        try:
            writer.finalize()
            finalized = True
        except Exception as err:
            finalized = False
            errors.append(err)
        ctx.count("faults", state["raised"])
        for err in errors:
            if not caused(err):
                ctx.violation("the error raised doesn't have the storage's as its cause", raised=repr(err), **detail)
        retried = transient and which == "google" and call in ("put", "stored")
        if state["raised"] and not errors and not retried:
            ctx.check(call == "list", "an error of the storage was hidden", **detail)
        if retried and length < 10:
            ctx.check(not errors, "a transient error wasn't retried", errors=[repr(e) for e in errors], **detail)
            ctx.count("retried", bool(state["raised"]))
            ctx.check(clock.naps == state["raised"], "retries without a pause", pauses=clock.naps, failures=state["raised"], **detail)
        stored = [r for name, data in sorted(objects.buckets[bucket].items()) if "/frame." not in name for r in decode_blob(name, data)]
        flagged = any(n.endswith("frame.complete") for n in objects.buckets[bucket])
        if finalized and not errors:
            ctx.check(bag(stored) == bag(accepted), "records were lost or repeated without an error", **detail, **diff(bag(accepted), bag(stored)))
            if kind is BatchWriter:
                ctx.check(flagged, "finalised without marking the frame", **detail)
        if flagged:
            missing = [r for r in accepted if typed(r) not in [typed(s) for s in stored]]
            ctx.check(not missing, "a frame which lost records is marked complete", missing=missing[:3], **detail)

        # listing
        if kind is Writer and finalized:
            reading = {"list": "list", "bucket": "bucket"}.get(call)
            state.update(calls=0, raised=0)
            first = 0
            try:
                got = [dict(r) for r in Reader(dataset=f"{bucket}/ds", partitions=["{yyyy}-{mm}-{dd}"], start_date="2024-01-01", end_date="2024-01-01", inner_reader=reader_class, **extra)]
                ctx.check(not state["raised"] or call not in ("list",), "an error while listing was hidden", got=len(got), **detail)
                if not state["raised"]:
                    ctx.check(bag(got) == bag(stored), "a read after the failures is not what's stored", **detail, **diff(bag(stored), bag(got)))
            except Exception as err:
                ctx.check(caused(err), "an error while listing was replaced by another", raised=repr(err), reading=reading, **detail)
            ctx.count("listings")
        objects.fault = None
        del writer
        count = len(errors)
        errors.clear()
        err = error.__traceback__ = error.__context__ = None
        gc.collect()
    ctx.seen((detail, count), nontrivial=state["raised"] > 0 or bool(count), sample=detail)


def object_name(rng):
    parts = []
    for _ in range(rng.randint(2, 4)):
        part = "".join(rng.choice("abcXYZ019_-=.,()+@!~ é日'&%#{}") for _ in range(rng.randint(1, 12))).strip(". ") or "p"
        parts.append(part)
    if rng.random() < 0.7:
        parts[-1] += rng.choice([".jsonl", ".jsonl.zstd", ".parquet", ".txt", ".complete", ".a.b.c", ".JSON"])
    return "/".join(parts)


def blobs(ctx, case):
    """bytes in, the same bytes out, and listings"""
    rng = ctx.rng
    objects = Objects()
    which = rng.choice(["minio", "google"])
    objects.buckets = {"bucket": {}, "spare": {}}
    names = []
    while len(names) < rng.randint(1, 12):
        name = object_name(rng)
        if "." in name.rsplit("/", 1)[-1][1:]:
            names.append(name)
    with installed(objects) as (kinds, clock):
        writer_class, reader_class, extra = kinds[which]
        writer = writer_class(dataset="bucket/folder/", format="jsonl", **extra)
        put = {}
        for name in names:
            data = rng.choice([b"", b"\x00", bytes(rng.randrange(256) for _ in range(rng.randint(1, 300))), b"\r\n\xff\xfe", gen.word(rng).encode(), b"x" * 70000, b"0123456789" * (600_000 if rng.random() < 0.1 else 150_000 if rng.random() < 0.2 else 0)])
            ok, returned = ctx.guard("commit", writer.commit, data, name, detail=dict(adapter=which, name=name))
            if not ok:
                return
            put[name] = data
        ok, own = ctx.guard("commit", writer.commit, b"own", detail=dict(adapter=which))
        if not ok:
            return
        ctx.check(own.startswith("folder/") and objects.buckets["bucket"].get(own) == b"own", "a blob wasn't stored under the name returned", returned=own,
                  stored=sorted(objects.buckets["bucket"])[:5], adapter=which)
        put[own] = b"own"
        ctx.check(objects.buckets["bucket"] == put and not objects.buckets["spare"], "what's stored isn't what was committed", adapter=which,
                  stored=sorted(objects.buckets["bucket"])[:5], committed=sorted(put)[:5])
        reader = reader_class(dataset="bucket/folder/", **extra)
        for name, data in put.items():
            ok, got = ctx.guard("get", reader.get_blob_bytes, "bucket/" + name, detail=dict(adapter=which, name=name))
            if ok:
                ctx.check(bytes(got) == data, "a blob isn't the bytes which were committed", adapter=which, name=name, committed=data[:60], got=bytes(got)[:60])
            ctx.count("blobs")
        # folders, one of whose names may start with another's
        listing = {}
        for folder in ("f", "f/g", "f/gg", "f/g/h", "fg", "é/ f"):
            for i in range(rng.choice([0, 1, 3])):
                listing.setdefault(folder, []).append(f"{folder}/{i}{rng.choice(['.jsonl', '.parquet', ' 1.txt', '%20.jsonl'])}")
        objects.buckets = {"bucket": {}, "spare": {}}
        for folder in listing:
            for name in listing[folder]:
                objects.buckets["bucket"][name] = b"{}"
                objects.buckets["spare"][name] = b"{}"
            if rng.random() < 0.5:
                objects.buckets["bucket"][folder + "/"] = b""
        for folder in ("f", "f/g", "f/gg", "é/ f", "none"):
            want = sorted(f"bucket/{n}" for names in listing.values() for n in names if n.startswith(folder + "/"))
            ok, got = ctx.guard("list", lambda: list(reader.get_blobs_at_path(rng.choice([f"bucket/{folder}", f"bucket/{folder}/"]))), detail=dict(adapter=which, folder=folder))
            if ok:
                ctx.check(sorted(got) == want, "a listing isn't the objects of the folder", adapter=which, folder=folder, listed=sorted(got)[:8], want=want[:8])
                ctx.count("listings")
        ctx.check(objects.opened == objects.closed, "a response wasn't closed", adapter=which, opened=objects.opened, closed=objects.closed)
        ctx.seen((which, sorted(put)), nontrivial=True, sample={"adapter": which, "blobs": sorted(put)[:3]})


def disk(ctx, case):
    """bytes in, the same bytes out and listings, in folders"""
    from mabel.adapters.disk import DiskReader, DiskWriter

    rng = ctx.rng
    root = f"{ctx.scratch}/disk-{case}"
    writer = DiskWriter(dataset=f"{root}/own", format="jsonl")
    put = {}
    for _ in range(rng.randint(2, 10)):
        # the same name again sometimes, what was there before may have been longer
        name = rng.choice(sorted(put)) if put and rng.random() < 0.4 else f"{root}/{object_name(rng)}.bin"
        data = rng.choice([b"", b"\x00", bytes(rng.randrange(256) for _ in range(rng.randint(1, 300))), b"\r\n\xff\xfe\x1a", gen.word(rng).encode(), b"x" * 70000, b"0123456789" * 150_000])
        ok, returned = ctx.guard("commit to disk", writer.commit, data, name, detail=dict(name=name))
        if not ok:
            return
        ctx.check(returned == name, "a blob wasn't stored under the name given", returned=returned, given=name)
        put[name] = data
    ok, own = ctx.guard("commit to disk", writer.commit, b"own")
    if not ok:
        return
    ctx.check(own.startswith(f"{root}/own"), "a blob wasn't stored in the dataset", returned=own, dataset=f"{root}/own")
    put[own] = b"own"
    there = {p.as_posix() for p in pathlib.Path(root).rglob("*") if p.is_file()}
    ctx.check(there == set(put), "what's stored isn't what was committed", stored=sorted(there)[:6], committed=sorted(put)[:6])
    reader = DiskReader(dataset=root)
    for name, data in put.items():
        with open(name, "rb") as file:
            ctx.check(file.read() == data, "a file isn't the bytes which were last committed", name=name, committed=data[:60], size=len(data))
        ok, got = ctx.guard("get from disk", reader.get_blob_bytes, name, detail=dict(name=name))
        if ok:
            ctx.check(bytes(got) == data, "a blob isn't the bytes which were committed", name=name, committed=data[:60], got=bytes(got)[:60])
        ctx.count("files")
    for folder in {root, *(name.rsplit("/", 1)[0] for name in put), f"{root}/none", f"{root}/own/none"}:
        want = sorted(name for name in put if name.startswith(folder + "/"))
        ok, got = ctx.guard("list a folder", lambda: [str(b) for b in reader.get_blobs_at_path(pathlib.Path(folder))], detail=dict(folder=folder))
        if ok:
            ctx.check(sorted(got) == want, "a listing isn't the files of the folder", folder=folder, listed=sorted(got)[:6], want=want[:6])
    ctx.seen(("disk", sorted(name[len(root):] for name in put)), nontrivial=True)
    shutil.rmtree(root)


def ranges(ctx, case):
    """several days, frames and by_ folders, over both storages"""
    from mabel import Reader

    rng = ctx.rng
    which = rng.choice(["minio", "google"])
    objects = Objects()
    objects.buckets = {"bucket": {}}
    store = Store()
    base = gen.some_date(rng)
    expected = []
    for d in range(rng.randint(1, 4)):
        day = base + datetime.timedelta(days=d)
        folder = day.strftime("ds/year_%Y/month_%m/day_%d")
        by = rng.choice(["", "", "/by_hour/hour=01", "/by_hour/hour=02"])
        names = []
        if rng.random() < 0.5:
            names = [f"{folder}{by}/{i}.jsonl" for i in range(rng.randint(0, 3))]
        else:
            for f in range(rng.randint(1, 3)):
                frame = f"{folder}{by}/as_at_20240101-00000{f}"
                names += [f"{frame}/{i}.jsonl" for i in range(rng.randint(1, 2))]
                names += [f"{frame}/frame.complete"] if rng.random() < 0.7 else []
                names += [f"{frame}/frame.ignore"] if rng.random() < 0.2 else []
        for name in names:
            data = b"" if "/frame." in name else f'{{"from": "{name}"}}\n'.encode()
            objects.buckets["bucket"][name] = data
            store.put("bucket/" + name, data)
        if rng.random() < 0.5:
            objects.buckets["bucket"][folder + "/"] = b""
    span = rng.randint(0, 3)
    end = base + datetime.timedelta(days=span)
    failing = rng.choice([None, None, "get", "stat", "read"])
    bad = rng.choice(sorted(objects.buckets["bucket"]) or ["-"])
    if rng.random() < 0.5 or bad.endswith("/"):
        failing = None
    detail = dict(adapter=which, start=str(base), end=str(end), objects=sorted(objects.buckets["bucket"])[:20], failing=failing and (failing, bad))

    def fault(what, bucket, name):
        if what == failing and name == bad:
            raise OSError("injected")

    objects.fault = fault

    def read(inner, extra):
        try:
            return [dict(r)["from"] for r in Reader(dataset="bucket/ds", start_date=base, end_date=end, inner_reader=inner, **extra)]
        except Exception as err:
            if type(err).__name__ != "DataNotFoundError":
                raise
            return "no data"

    want = read(adapters(store)[1], {})
    with installed(objects) as (kinds, clock):
        ok, got = ctx.guard("read", read, kinds[which][1], kinds[which][2], detail=detail)
    if not ok:
        return
    hit = failing and any(c == (failing, "bucket", bad) for c in objects.calls)
    if hit and want != "no data":
        want = [name for name in want if name != bad]
        ctx.count("unreadable")
    if want in ("no data", []):
        ctx.check(got in ("no data", []), "records of nowhere", got=got[:5], **detail)
    else:
        ctx.check(got == want, "read something else than over other storage", got=got, want=want, **detail)
    ctx.check(objects.opened == objects.closed, "a response wasn't closed", opened=objects.opened, closed=objects.closed, **detail)
    ctx.count("ranges")
    ctx.seen(detail, nontrivial=want not in ("no data", []), sample=detail)


def identity(ctx):
    """every client is made with what the caller gave, and nothing the caller gave for another"""
    import os

    from mabel import Reader, Writer

    for turn in range(2):
        objects = Objects()
        objects.buckets = {"bucket": {}}
        with installed(objects) as (kinds, clock):
            # no emulator: the stand-ins are the real thing
            os.environ.pop("STORAGE_EMULATOR_HOST", None)
            for which, given in (
                ("minio", {"end_point": f"host-{turn}:9000", "access_key": f"key-{turn}", "secret_key": f"secret-{turn}", "secure": bool(turn)}),
                ("google", {"credentials": f"credentials-{turn}"}),
            ):
                writer_class, reader_class, _ = kinds[which]
                objects.clients.clear()

                def use():
                    writer = Writer(dataset=f"bucket/{which}", format="jsonl", schema=False, date=datetime.date(2024, 3, 1), inner_writer=writer_class, **given)
                    writer.append({"v": turn})
                    writer.finalize()
                    wrote = list(objects.clients)
                    objects.clients.clear()
                    got = [r["v"] for r in Reader(dataset=f"bucket/{which}", start_date="2024-03-01", end_date="2024-03-01", inner_reader=reader_class, **given)]
                    return got, wrote, list(objects.clients)

                detail = dict(adapter=which, given=given)
                ok, result = ctx.guard("write and read with credentials", use, detail=detail)
                if not ok:
                    continue
                got, wrote, read = result
                ctx.check(got == [turn], "the record isn't read back", got=got, **detail)
                names = {"end_point": "endpoint"}
                want = {names.get(k, k): v for k, v in given.items()}
                ctx.check(wrote and all(c == want for c in wrote), "a client for writing isn't made with what was given", clients=wrote, **detail)
                ctx.check(read and all(c == want for c in read), "a client for reading isn't made with what was given", clients=read, **detail)
                ctx.seen(detail, sample=detail)
                ctx.count("identities")


def run(ctx):
    ctx.minimum = 300
    identity(ctx)
    ctx.deadline(20, 420)
    for case in range(ctx.n(900, 20000)):
        if not ctx.more():
            break
        history(ctx, case)
        faults(ctx, case)
        blobs(ctx, case)
        ranges(ctx, case)
        disk(ctx, case)
    for name, least in (("identities", 1), ("files", 40), ("histories", 30), ("faults", 20), ("retried", 6), ("listings", 100), ("blobs", 150), ("frames", 25), ("records_read", 60), ("unreadable", 2), ("ranges", 60), ("minio", 20), ("google", 20)):
        ctx.require(name, least)
