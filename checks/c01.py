"""
One case is a whole write history - writer class, format, schema, dataset name, date,
partition template, blob size, records (unique ids, hostile values) - finalised, then read
back through the public Reader over the same storage. The oracle is bag equality of what
append accepted with what the Reader returned, plus the records decoded straight from
storage by an independent decoder. A case is non-trivial when at least one record was
accepted and read; distinct by (configuration, number of blobs, records).
"""

import datetime
import os

from vf import gen
from vf.codec import bag, decode_blob, diff, flat_model
from vf.store import Store, adapters

ASSUMPTIONS = [
    "JSON formats are compared over JSON-representable values, parquet over declared column types other than STRUCT",
    "text blobs are read back as one record per blob (the Reader's documented granularity)",
    "BatchWriters in one case use different dates or frames (frame names have one second resolution)",
]

PARTITIONS = [
    ["year_{yyyy}/month_{mm}/day_{dd}"],
    ["year_{yyyy}", "month_{mm}", "day_{dd}"],
    ["{yyyy}/{mm}/{dd}"],
    ["{yyyy}-{mm}-{dd}"],
    ["date={yyyy}{mm}{dd}"],
    ["year_{yyyy}/month_{mm}/day_{dd}/by_hour/hour={HH}"],
    ["year_{yyyy}/month_{mm}/day_{dd}", "{HH}"],
    None,
]
DATASETS = ["ds/events", "bucket/a/b/c", "data_set-1/x_y", "v1.2/folder/name", "Bucket/with space/n", "b/ünï"]


def make_records(rng, form, size, case):
    if form == "parquet":
        kinds = [(f"c{i}", rng.choice(gen.SCHEMA_TYPES)) for i in range(rng.randint(0, 4))]
        schema = [{"name": "_id", "type": "VARCHAR"}] + [{"name": n, "type": k} for n, k in kinds]
        records = []
        for i in range(size):
            record = {"_id": f"{case}-{i}"}
            for n, k in kinds:
                record[n] = gen.typed_value(rng, k)
            records.append(record)
        return schema, records
    if form == "text":
        records = []
        for i in range(size):
            text = f"{case}-{i} " + gen.word(rng).replace("\n", " ").replace("\r", " ")
            records.append(rng.choice([text, text.encode()]))
        return False, records
    return False, [gen.json_record(rng, f"{case}-{i}") for i in range(size)]


def one(ctx, case):
    from mabel import Reader, Writer
    from mabel.adapters.disk import DiskReader, DiskWriter
    from mabel.data import BatchWriter

    rng = ctx.rng
    form = rng.choice(["jsonl", "zstd", "parquet", "flat", "text", "jsonl", "zstd"])
    size = rng.choice([0, 1, 2, 3, 10, 40, 120]) if rng.random() < 0.9 else ctx.n(600, 4000)
    schema, records = make_records(rng, form, size, case)
    if schema is False and form in ("jsonl", "zstd") and rng.random() < 0.3:
        # a schema which is names only, or typed, and which fits the records
        records = [{"_id": f"{case}-{i}", "v": gen.json_value(rng)} for i in range(size)]
        schema = rng.choice(
            [
                [{"name": "_id"}, {"name": "v"}],
                {"fields": [{"name": "_id", "type": "VARCHAR"}, {"name": "v"}]},
                {"columns": [{"name": "_id", "type": "VARCHAR"}, {"name": "v"}], "name": "n"},
            ]
        )
    if form in ("jsonl", "zstd") and schema is False and rng.random() < 0.15:
        records = [r if rng.random() < 0.5 else {} for r in records]
    day = gen.some_date(rng)
    hour = rng.randint(0, 23)
    date = rng.choice(
        [day, day.isoformat(), datetime.datetime(day.year, day.month, day.day, hour, 59, 59), f"{day.isoformat()} {hour:02d}:10"]
    )
    partitions = rng.choice(PARTITIONS)
    dataset = rng.choice(DATASETS)
    blob_size = rng.choice([1, 60, 500, 5000, None])
    kind = rng.choice([Writer, BatchWriter])
    disk = rng.random() < 0.25
    store = Store()
    inner_writer, inner_reader = adapters(store)
    if disk:
        inner_writer, inner_reader = DiskWriter, DiskReader
        dataset = f"c{case}/{dataset}"
        if rng.random() < 0.5:
            dataset = os.path.join(ctx.scratch, dataset)
    config = dict(form=form, kind=kind.__name__, date=str(date), partitions=partitions, dataset=dataset.replace(ctx.scratch, "$"),
                  blob_size=blob_size, size=len(records), disk=disk, schema=schema)

    kwargs = dict(schema=schema, dataset=dataset, format=form, date=date, partitions=partitions, inner_writer=inner_writer)
    if blob_size:
        kwargs["blob_size"] = blob_size

    def write():
        writer = kind(**kwargs)
        for record in records:
            if form in ("jsonl", "zstd") and rng.random() < 0.3:
                # the caller is free to reuse its record once append has returned
                copy = dict(record)
                writer.append(copy)
                copy.clear()
                copy["_id"] = "reused by the caller"
            else:
                writer.append(record)
        writer.finalize()

    ok, _ = ctx.guard("write history", write, detail=config)
    if not ok:
        return

    # what the storage holds, decoded by us
    if form == "text":
        lines = [r.encode() if isinstance(r, str) else r for r in records]
        expected = bag(lines)
    elif form == "flat":
        expected = bag([flat_model(r) for r in records])
    else:
        expected = bag(records)
    if not disk:
        stored = [r for name, data in sorted(store.data_blobs().items()) for r in decode_blob(name, data)]
        ctx.check(bag(stored) == expected, "storage doesn't hold exactly the records appended", config=config,
                  **diff(expected, bag(stored)))
        ctx.count("blobs", len(store.data_blobs()))
        if len(store.data_blobs()) > 1:
            ctx.count("cases_with_rollover")

    if not records:
        return

    read_date = day if partitions is None or not any("{HH}" in p for p in partitions) else date
    if isinstance(read_date, datetime.datetime) or rng.random() < 0.5:
        read_date = str(read_date)[:16]

    def read():
        return list(
            Reader(dataset=dataset, partitions=partitions, start_date=read_date, end_date=read_date, inner_reader=inner_reader)
        )

    ok, got = ctx.guard("read back", read, detail=config)
    if not ok:
        return
    if form == "text":
        got = [line for block in got for line in bytes(block).split(b"\n")[:-1]]
    ctx.check(bag(got) == expected, "Reader didn't return exactly the records appended", config=config, **diff(expected, bag(got)))
    ctx.count("records_read", len(got))
    ctx.count(f"format_{form}")
    ctx.seen((config, [r if not isinstance(r, bytes) else r.decode() for r in records[:5]]), nontrivial=bool(got), sample=config)


def many_batches(ctx, case):
    """several writers for one dataset, one per date, each date only sees its own"""
    from mabel import Reader
    from mabel.data import BatchWriter

    rng = ctx.rng
    store = Store()
    inner_writer, inner_reader = adapters(store)
    base = gen.some_date(rng)
    written = {}
    days = [base + datetime.timedelta(days=d) for d in rng.sample(range(-40, 40), rng.randint(2, 5))]
    writers = {}
    for day in days:
        writers[day] = BatchWriter(schema=False, dataset="multi/ds", format=rng.choice(["jsonl", "zstd"]), date=day,
                                   inner_writer=inner_writer, blob_size=rng.choice([50, 10**6]))
        written[day] = []
    # interleaved
    for i in range(rng.randint(5, 60)):
        day = rng.choice(days)
        record = {"_id": f"{case}-{i}", "v": gen.json_value(rng)}
        writers[day].append(record)
        written[day].append(record)
    for day in rng.sample(days, len(days)):
        writers[day].finalize()
    for day in days:
        if not written[day]:
            continue
        got = list(Reader(dataset="multi/ds", start_date=day, end_date=day, inner_reader=inner_reader))
        ctx.check(bag(got) == bag(written[day]), "interleaved writers mixed or lost records", day=str(day), days=[str(d) for d in days],
                  **diff(bag(written[day]), bag(got)))
    everything = [r for rs in written.values() for r in rs]
    got = list(Reader(dataset="multi/ds", start_date=min(days), end_date=max(days), inner_reader=inner_reader))
    ctx.check(bag(got) == bag(everything), "reading all dates lost or repeated records", **diff(bag(everything), bag(got)))
    ctx.count("interleaved_writer_cases")
    ctx.seen(("multi", [str(d) for d in days], len(everything)), sample={"interleaved_writers": len(days), "records": len(everything)})


def big(ctx, form, blob_size):
    """one long history: roll-over arithmetic over many blobs, or very many records in one"""
    from mabel import Reader, Writer

    rng = ctx.rng
    store = Store()
    inner_writer, inner_reader = adapters(store)
    size = ctx.n(6000, 40000)
    schema = [{"name": "_id", "type": "INTEGER"}, {"name": "v", "type": "VARCHAR"}] if form == "parquet" else False
    writer = Writer(schema=schema, dataset="big/ds", format=form, date="2022-03-04", inner_writer=inner_writer, blob_size=blob_size)
    for i in range(size):
        writer.append({"_id": i, "v": "x" * rng.randint(0, 60)})
    writer.finalize()
    got = [r["_id"] for r in Reader(dataset="big/ds", start_date="2022-03-04", end_date="2022-03-04", inner_reader=inner_reader)]
    ctx.check(sorted(got) == list(range(size)), "a long history wasn't read back exactly once", form=form, expected=size, got=len(got),
              distinct=len(set(got)))
    ctx.count("blobs", len(store.data_blobs()))
    ctx.seen(("big", form, blob_size, len(store.data_blobs())), sample={"form": form, "records": size, "blobs": len(store.data_blobs())})


class BaseModel:
    """what the models of pydantic look like to a writer, any version of it"""

    def __init__(self, **values):
        self.values = values


class OldModel(BaseModel):
    def dict(self):
        return dict(self.values)


class NewModel(BaseModel):
    def model_dump(self):
        return dict(self.values)


def other_ways(ctx):
    """models instead of dictionaries, older ways to say where records go, and jobs which share a frame"""
    from mabel import Reader, Writer
    from mabel.data import BatchWriter, StreamWriter

    rng = ctx.rng
    for schema in (False, [{"name": "name", "type": "VARCHAR"}, {"name": "value", "type": "INTEGER"}]):
        for writer_class, models in ((Writer, (OldModel, NewModel)), (BatchWriter, (OldModel, NewModel)), (StreamWriter, (OldModel, NewModel))):
            store = Store()
            inner_writer, inner_reader = adapters(store)
            writer = writer_class(schema=schema, dataset="models/ds", format=rng.choice(["jsonl", "zstd"]), date="2022-03-04", inner_writer=inner_writer)
            expected = []
            for i in range(rng.randint(1, 6)):
                values = {"name": f"n{i}", "value": rng.randint(-9, 9)}
                expected.append(values)
                ok, _ = ctx.guard("append a model", writer.append, rng.choice(models + (dict,))(**values), detail=dict(writer=writer_class.__name__))
                if not ok:
                    return
            writer.finalize()
            got = list(Reader(dataset="models/ds", start_date="2022-03-04", end_date="2022-03-04", inner_reader=inner_reader))
            ctx.check(bag(got) == bag(expected), "models appended weren't read back as their values", writer=writer_class.__name__, schema=bool(schema), **diff(bag(expected), bag(got)))
            ctx.count("models", len(expected))
            ctx.seen(("models", writer_class.__name__, bool(schema)))
    for name, partitions in (
        ("old/ds/{datefolders}", ["year_{yyyy}/month_{mm}/day_{dd}"]),
        ("old/ds/{datefolders_short}", ["{yyyy}/{mm}/{dd}"]),
        ("old/ds", None),
    ):
        store = Store()
        inner_writer, inner_reader = adapters(store)
        raw = {} if partitions else {"raw_path": rng.choice([True, "true", "TRUE"])}
        expected = [{"i": i} for i in range(rng.randint(1, 9))]
        writer = Writer(schema=False, dataset=name, format="jsonl", date="2022-03-04", blob_size=rng.choice([1, 30, 1000]), inner_writer=inner_writer, **raw)
        for record in expected:
            writer.append(record)
        writer.finalize()
        got = list(Reader(dataset="old/ds", start_date="2022-03-04", end_date="2022-03-04", partitions=partitions, inner_reader=inner_reader))
        ctx.check(bag(got) == bag(expected), "records written with an older way to name the dataset weren't read back", name=name, blobs=sorted(store.blobs)[:5], **diff(bag(expected), bag(got)))
        ctx.seen(("older", name))
    # lines which aren't text yet, and records whose names aren't
    store = Store()
    inner_writer, inner_reader = adapters(store)
    lines = [rng.choice([i, i + 0.5, f"line {i}", f"line {i}".encode(), (i, "x"), None, True, ["é", i]]) for i in range(rng.randint(5, 20))]
    writer = Writer(schema=False, dataset="plain/ds", format="text", date="2022-03-04", blob_size=rng.choice([1, 30, 1000]), inner_writer=inner_writer)
    for line in lines:
        ctx.guard("append a line", writer.append, line, detail=dict(line=repr(line)))
    writer.finalize()
    expected = [line if isinstance(line, bytes) else str(line).encode() for line in lines]
    got = [l for block in Reader(dataset="plain/ds", start_date="2022-03-04", end_date="2022-03-04", inner_reader=inner_reader) for l in bytes(block).split(b"\n")[:-1]]
    ctx.check(bag(got) == bag(expected), "lines weren't read back", lines=repr(lines), **diff(bag(expected), bag(got)))
    for form in ("jsonl", "zstd"):
        store = Store()
        inner_writer, inner_reader = adapters(store)
        records = [rng.choice([{1: i, 2: "two"}, {"name": i}, {1.5: i}, {"n": {7: i}}]) for i in range(rng.randint(5, 20))]
        writer = Writer(schema=False, dataset="keys/ds", format=form, date="2022-03-04", blob_size=rng.choice([1, 30, 1000]), inner_writer=inner_writer)
        for record in records:
            ctx.guard("append a record with numbers for names", writer.append, record, detail=dict(record=repr(record)))
        writer.finalize()
        text = lambda v: {str(k): text(x) for k, x in v.items()} if isinstance(v, dict) else v  # JSON's names are text
        got = list(Reader(dataset="keys/ds", start_date="2022-03-04", end_date="2022-03-04", inner_reader=inner_reader))
        expected = [text(r) for r in records]
        ctx.check(bag(got) == bag(expected), "records with numbers for names weren't read back", form=form, **diff(bag(expected), bag(got)))
        ctx.seen(("names", form, len(records)))
    # a job which is split writes one frame with many writers
    for _ in range(3):
        store = Store()
        inner_writer, inner_reader = adapters(store)
        frame = f"split/ds/year_2022/month_03/day_04/as_at_202203{rng.randint(10, 28)}-{rng.randint(10, 23)}1005"
        writers, expected = [], []
        for _ in range(rng.randint(2, 4)):
            writers.append(BatchWriter(schema=False, dataset="split/ds", frame_id=frame, format="jsonl", date="2022-03-04", blob_size=rng.choice([1, 30, 1000]), inner_writer=inner_writer))
        for i in range(rng.randint(4, 20)):
            expected.append({"i": i})
            rng.choice(writers).append(expected[-1])
        for writer in writers:
            writer.finalize()
        got = list(Reader(dataset="split/ds", start_date="2022-03-04", end_date="2022-03-04", inner_reader=inner_reader))
        ctx.check(bag(got) == bag(expected), "writers which share a frame lost or repeated records", frame=frame, **diff(bag(expected), bag(got)))
        strays = [n for n in sorted(store.blobs) if not n.startswith(frame + "/")]
        ctx.check(not strays, "a writer given a frame wrote outside of it", frame=frame, strays=strays[:5])
        ctx.seen(("split", len(writers), len(expected)))


def run(ctx):
    ctx.minimum = 30
    ctx.deadline(18, 420)
    other_ways(ctx)
    for case, form in enumerate(["jsonl", "zstd", "parquet"]):
        ctx.guard("long history", big, ctx, form, 20000)
        ctx.guard("many records in a blob", big, ctx, form, 10**8)
    for case in range(ctx.n(300, 8000)):
        if not ctx.more():
            break
        if case % 6 == 5:
            ctx.guard("interleaved writers", many_batches, ctx, case)
        else:
            one(ctx, case)
    ctx.require("records_read", 500)
    ctx.require("cases_with_rollover", 10)
    ctx.require("format_parquet", 2)
