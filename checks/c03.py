"""
One case is a StreamWriter session over generated records: placeholder values that are
missing, None, empty, lists (with repeats and values that sanitise to the same folder),
numbers, dictionaries and hostile strings, some records breaking the schema in one way.
The oracle is an independent routing model: for every folder in storage the decoded records
must be exactly the records the model routes there; BACKOUT folders hold only failing
records, and a Reader over each destination returns only the conforming ones. Non-trivial
when something was stored; distinct by template, schema and routed folders.
"""

import collections
import datetime
import itertools
import re

from vf import gen
from vf.codec import bag, decode_blob, diff, flat_model
from vf.store import Store, adapters, norm

ASSUMPTIONS = [
    "field names in templates are letters, digits, underscores and spaces",
    "values compared are JSON values; a dead letter for a parquet stream is stored as JSON lines",
]

ALLOWED = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 \t\n\r\x0b\x0c")

TEMPLATES = [
    ("s/{k}", ["k"]),
    ("s/{k}/{j}", ["k", "j"]),
    ("s/{k}/fixed/{j}-x", ["k", "j"]),
    ("s/{k}/{k}", ["k"]),
    ("s/by_k/k={k}", ["k"]),
    ("s/ds", []),
    ("s/{a b}/{j}/{k}", ["a b", "j", "k"]),
    ("Bucket/data_set-1/{j}", ["j"]),
]
PARTITIONS = [
    "default",
    ["year_{yyyy}/month_{mm}/day_{dd}"],
    ["{yyyy}", "{mm}", "{dd}"],
    ["year_{yyyy}/month_{mm}/day_{dd}/by_hour/hour={HH}"],
    ["year_{yyyy}/month_{mm}/day_{dd}/by_j/j={j}"],
    ["{j}", "{yyyy}-{mm}-{dd}"],
    None,
]


def clean(value):
    return "".join(c for c in str(value) if c in ALLOWED)


def folders_for(template, when, record):
    path = template
    for token, text in (
        ("{yyyy}", f"{when.year}"), ("{mm}", f"{when.month:02d}"), ("{dd}", f"{when.day:02d}"),
        ("{HH}", f"{when.hour:02d}"), ("{MM}", f"{when.minute:02d}"), ("{SS}", f"{when.second:02d}"),
    ):
        path = path.replace(token, text)
    names = sorted(set(re.findall(r"\{([^{}]*)\}", path)))
    options = []
    for name in names:
        value = record.get(name)
        values = value if isinstance(value, list) else [value]
        options.append(sorted({clean(v) for v in (values or [None])}))
    out = set()
    for combination in itertools.product(*options):
        this = path
        for name, text in zip(names, combination):
            this = this.replace("{" + name + "}", text)
        out.add(norm(this).rstrip("/"))
    return out


def word(rng):
    return gen.word(rng).replace("BACKOUT", "backout")


def placeholder_value(rng):
    k = rng.random()
    if k < 0.3:
        return rng.choice(["alpha", "beta", "gamma", "A", "1"])
    if k < 0.5:
        return word(rng)
    if k < 0.6:
        return rng.choice([0, 1, -1, 1.5, True, False, None, "", "None", {"a": 1}, "al-pha", "al pha"])
    if k < 0.7:
        return []
    if k < 0.8:
        return ["x", "y"]
    return [rng.choice(["x", "x.", "X", "y", 1, "1", None, "", "!!", 2.5, True, "alpha"]) for _ in range(rng.choice([1, 2, 3, 4, 4, 12, 25]))]


def one(ctx, case):
    from mabel import Reader
    from mabel.data import StreamWriter

    rng = ctx.rng
    dataset, _ = rng.choice(TEMPLATES)
    partitions = rng.choice(PARTITIONS)
    if partitions is None:
        # a dataset is a bucket and at least one folder
        dataset = dataset.replace("s/", "s/top/", 1)
    template = dataset
    parts = ["year_{yyyy}/month_{mm}/day_{dd}"] if partitions == "default" else partitions
    if parts:
        template += "/" + "/".join(parts)
    form = rng.choice(["jsonl", "zstd", "flat", "jsonl", "parquet"])
    day = gen.some_date(rng)
    when = datetime.datetime(day.year, day.month, day.day, rng.randint(0, 23), 30, 5)
    style = rng.randrange(4)
    if style == 0:
        date, at = when, when
    elif style == 1:
        date, at = day, datetime.datetime(day.year, day.month, day.day)
    elif style == 2:
        date, at = day.isoformat(), datetime.datetime(day.year, day.month, day.day)
    else:
        date, at = when.isoformat(sep=rng.choice([" ", "T"])), when

    schema = False
    listy = rng.random() < 0.5
    if form == "parquet" or rng.random() < 0.55:
        schema = [
            {"name": "_id", "type": "VARCHAR"},
            {"name": "k", "type": "ARRAY" if listy else "VARCHAR"},
            {"name": "j", "type": "VARCHAR"},
            {"name": "a b", "type": "VARCHAR"},
            {"name": "v", "type": "INTEGER"},
        ]

    config = dict(dataset=dataset, partitions=partitions, format=form, date=str(date), schema=bool(schema), listy=listy)
    store = Store()
    inner_writer, inner_reader = adapters(store)
    kwargs = {} if partitions == "default" else {"partitions": partitions}
    ok, writer = ctx.guard(
        "construct StreamWriter", StreamWriter, dataset=dataset, format=form, schema=schema, date=date, inner_writer=inner_writer,
        idle_timeout_seconds=rng.choice([0, 60]), writer_pool_capacity=rng.choice([1, 5, 50]),
        blob_size=rng.choice([10, 1000, 10**7]), detail=config, **kwargs,
    )
    if not ok:
        return
    good, bad = collections.defaultdict(list), collections.defaultdict(list)
    for i in range(rng.choice([1, 3, 10, 30])):
        uid = f"{case}-{i}"
        fails = False
        if schema:
            record = {
                "_id": uid,
                "k": [word(rng) for _ in range(rng.randint(0, 3))] * rng.randint(1, 2) if listy else word(rng),
                "j": word(rng) if rng.random() < 0.8 else None,
                "a b": rng.choice(["one", "two", None]),
                "v": rng.choice(gen.INTS),
            }
            if rng.random() < 0.35:
                fails = True
                fault = rng.randrange(4)
                if fault == 0:
                    record["v"] = rng.choice(["text", [1], {"a": 1}])
                elif fault == 1:
                    del record[rng.choice(["v", "k", "j"])]
                elif fault == 2:
                    record["excess"] = 1
                else:
                    record["j"] = rng.choice([7, ["l"], True])
        else:
            record = {"_id": uid, "v": gen.json_value(rng)}
            for name in ("k", "j", "a b"):
                if rng.random() < 0.85:
                    record[name] = placeholder_value(rng)
        if template.count("{k}") + template.count("{j}") + template.count("{a b}") > 1:
            # values which leave nothing for the folder name are covered on their own
            for name in ("k", "j", "a b"):
                value = record.get(name)
                if isinstance(value, list):
                    record[name] = [v for v in value if clean(v)]
                elif name in record and not clean(value):
                    record[name] = "filled"
        targets = folders_for(template, at, record)
        ok, _ = ctx.guard("append", writer.append, dict(record), detail={**config, "record": record, "fails_schema": fails})
        if not ok:
            return
        for folder in targets:
            if fails:
                bad[folder + "/BACKOUT"].append(record)
            else:
                good[folder].append(record)
        ctx.count("dead_letters" if fails else "conforming")
        if len(targets) > 1:
            ctx.count("fan_out_records")
    ok, _ = ctx.guard("finalize", writer.finalize, detail=config)
    if not ok:
        return

    held = collections.defaultdict(list)
    for name, data in store.data_blobs().items():
        folder = name.rsplit("/", 1)[0]
        held[folder] += decode_blob(name, data)
    view = (lambda rs: [flat_model(r) for r in rs]) if form == "flat" else (lambda rs: rs)
    expected = {**good, **bad}
    for folder in sorted(set(held) | set(expected)):
        want, got = bag(view(expected.get(folder, []))), bag(held.get(folder, []))
        if want != got:
            ctx.violation("a folder doesn't hold exactly the records routed to it", config=config, folder=folder, **diff(want, got),
                          folders=sorted(held)[:8])
            return
    for name in store.data_blobs():
        ctx.check(("BACKOUT" in name) == (name.rsplit("/", 1)[0] in bad), "BACKOUT holds conforming records", name=name)

    # Readers never see dead letters
    if parts == ["year_{yyyy}/month_{mm}/day_{dd}"] and dataset == "s/{k}":
        for folder in list(good) + [f[: -len("/BACKOUT")] for f in bad]:
            value = folder.split("/")[1]
            if not value.isalnum() or folder.count("/") != 4:
                continue
            rows = good.get(folder, [])
            try:
                got = list(Reader(dataset=f"s/{value}", start_date=day, end_date=day, inner_reader=inner_reader))
            except Exception as err:
                if rows or type(err).__name__ != "DataNotFoundError":
                    ctx.violation("reading a stream destination failed", folder=folder, error=repr(err))
                got = []
            ctx.check(bag(got) == bag(view(rows)), "Reader of a stream destination", config=config, folder=folder, **diff(bag(view(rows)), bag(got)))
            ctx.count("destinations_read")
    ctx.seen((config, sorted(expected)), nontrivial=bool(held), sample={**config, "folders": sorted(expected)[:5]})


def clock(ctx):
    """without a date each record goes to the date it's appended"""
    from vf.clock import frozen as freeze_time

    from mabel.data import StreamWriter

    rng = ctx.rng
    for template in (["{yyyy}/{mm}/{dd}"], ["{yyyy}/{mm}/{dd}/{HH}"]):
        moments = [datetime.datetime(2023, 12, 31, 22, 59, 59), datetime.datetime(2023, 12, 31, 23, 0, 0), datetime.datetime(2024, 1, 1, 0, 0, 1),
                   datetime.datetime(2024, 2, 29, 12, 0, 0), datetime.datetime(2024, 3, 1, 0, 0, 0)]
        store = Store()
        inner_writer, _ = adapters(store)
        writer = StreamWriter(dataset="s/{k}", format="jsonl", schema=False, inner_writer=inner_writer, partitions=template, idle_timeout_seconds=10**9)
        expected = collections.defaultdict(set)
        for i, moment in enumerate(moments):
            with freeze_time(moment):
                k = rng.choice(["a", "b"])
                writer.append({"_id": i, "k": k})
                expected[f"s/{k}/" + template[0].replace("{yyyy}", f"{moment.year}").replace("{mm}", f"{moment.month:02d}").replace("{dd}", f"{moment.day:02d}").replace("{HH}", f"{moment.hour:02d}")].add(i)
        writer.finalize()
        held = collections.defaultdict(set)
        for name, data in store.data_blobs().items():
            held[name.rsplit("/", 1)[0]] |= {r["_id"] for r in decode_blob(name, data)}
        ctx.check(held == expected, "records without a date aren't stored under the moment they were appended", expected={k: sorted(v) for k, v in expected.items()},
                  held={k: sorted(v) for k, v in held.items()})
        ctx.seen(("clock", template))


def reserved_word(ctx):
    """a conforming record whose value is the reserved word"""
    from mabel import Reader
    from mabel.data import StreamWriter

    store = Store()
    inner_writer, inner_reader = adapters(store)
    writer = StreamWriter(dataset="s/{k}", format="jsonl", schema=False, inner_writer=inner_writer, date="2022-01-02")
    writer.append({"_id": 1, "k": "BACKOUT"})
    writer.append({"_id": 2, "k": "other"})
    writer.finalize()
    got = []
    try:
        got = list(Reader(dataset="s/BACKOUT", start_date="2022-01-02", end_date="2022-01-02", inner_reader=inner_reader))
    except Exception:
        pass
    ctx.check([r["_id"] for r in got] == [1], "a conforming record with the value BACKOUT can't be read", key="value-is-BACKOUT", got=got)
    ctx.seen("reserved word")


def reserved_names(ctx):
    """nothing but failing records is ever stored in BACKOUT, so no dataset may be called that"""
    from mabel import Writer
    from mabel.data import BatchWriter, StreamWriter
    from mabel.errors import InvalidDataSetError

    for kind in (Writer, BatchWriter, StreamWriter):
        for dataset in ("s/BACKOUT", "BACKOUT/s", "s/BACKOUT/t", "s/MYBACKOUTS", "s/backout", "s/BACK/OUT"):
            store = Store()
            inner_writer, _ = adapters(store)
            raised = None
            try:
                writer = kind(dataset=dataset, format="jsonl", schema=False, inner_writer=inner_writer, date="2022-01-02")
                writer.append({"_id": 1})
                writer.finalize()
            except InvalidDataSetError as err:
                raised = err
            if "BACKOUT" in dataset:
                ctx.check(raised is not None and not store.blobs, "a dataset with a reserved name was written", writer=kind.__name__, dataset=dataset, stored=sorted(store.blobs))
            else:
                ctx.check(raised is None and len(store.data_blobs()) == 1, "a dataset with a good name was refused", writer=kind.__name__, dataset=dataset, raised=repr(raised))
            ctx.seen(("reserved name", kind.__name__, dataset))


def empty_names(ctx):
    """values which leave nothing for the folder name, next to each other"""
    from mabel.data import StreamWriter

    store = Store()
    inner_writer, _ = adapters(store)
    writer = StreamWriter(dataset="s/{j}/{k}", format="jsonl", schema=False, inner_writer=inner_writer, date="2022-01-02")
    writer.append({"_id": 1, "j": ["", "x"], "k": ["x", ""]})
    writer.finalize()
    held = collections.Counter(name.rsplit("/", 1)[0] for name, data in store.data_blobs().items() for _ in decode_blob(name, data))
    ctx.check(max(held.values()) == 1, "a record is stored twice in a folder", key="empty-values-collapse", held=dict(held))
    ctx.seen("empty names")


def run(ctx):
    ctx.guard("empty names", empty_names, ctx)
    ctx.guard("reserved word", reserved_word, ctx)
    ctx.guard("reserved names", reserved_names, ctx)
    ctx.minimum = 40
    ctx.deadline(16, 300)
    ctx.guard("stream without a date", clock, ctx)
    for case in range(ctx.n(400, 12000)):
        if not ctx.more():
            break
        one(ctx, case)
    ctx.require("dead_letters", 100)
    ctx.require("fan_out_records", 100)
    ctx.require("destinations_read", 20)
