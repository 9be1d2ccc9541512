"""
One case is a Writer or BatchWriter with a schema and/or a set of expectations, offered a
mixture of records which do and don't conform (wrong type, null in a column which isn't
nullable, missing column, extra column, not a dictionary, failed expectation). The oracle is
an independent conformance model: append must raise for exactly the others, the record count
and the bytes in storage must be those of the same history without the rejected records.
Non-trivial when the case had both accepted and rejected records.
"""

import datetime
import json

from vf import gen
from vf.codec import bag, decode_blob, diff, flat_model
from vf.store import Store, adapters

ASSUMPTIONS = [
    "StreamWriters divert records which fail the schema to BACKOUT (C03), DatabaseWriters are C28",
    "expectations with a memory (increasing, decreasing) belong to data_expectations and aren't used",
    "parquet records only hold values which fit their declared column type",
]

PYTHON = {
    "VARCHAR": str, "INTEGER": int, "BOOLEAN": bool, "DOUBLE": (float, int), "TIMESTAMP": datetime.datetime, "DATE": datetime.date,
    "ARRAY": list, "BLOB": bytes,
}
WRONG = {
    "VARCHAR": [1, ["a"], {"a": 1}, False], "INTEGER": ["1", "", [1], {}], "BOOLEAN": ["true", ["x"], {}], "DOUBLE": ["1.0", [1.0], "nan"],
    "TIMESTAMP": ["2021-01-01", [], {}], "DATE": ["2021-01-01", "x"], "ARRAY": ["a", 1, {"a": 1}], "BLOB": [1, ["x"], {}],
}


def make_schema(rng, form):
    kinds = gen.SCHEMA_TYPES if form == "parquet" else ["VARCHAR", "INTEGER", "BOOLEAN", "ARRAY", "DOUBLE"]
    columns = [{"name": "_id", "type": "VARCHAR", "nullable": False}]
    for i in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        columns.append({"name": f"c{i}", "type": rng.choice(kinds), "nullable": rng.random() < 0.5})
    return columns


def make_expectations(rng, columns):
    out = []
    for column in rng.sample(columns, rng.randint(1, len(columns))):
        name, kind = column["name"], column["type"]
        options = [
            ({"expectation": "expect_column_to_exist", "column": name}, lambda r, n=name: n in r),
            ({"expectation": "expect_column_values_to_not_be_null", "column": name}, lambda r, n=name: r.get(n) is not None),
        ]
        if kind == "INTEGER":
            options.append((
                {"expectation": "expect_column_values_to_be_between", "column": name, "minimum": -100, "maximum": 5000},
                lambda r, n=name: r.get(n) is None or (isinstance(r[n], int) and -100 <= r[n] <= 5000),
            ))
        if kind == "VARCHAR" and name != "_id":
            options.append((
                {"expectation": "expect_column_values_to_be_in_set", "column": name, "symbols": list(gen.WORDS[:12])},
                lambda r, n=name: r.get(n) is None or (isinstance(r[n], str) and r[n] in gen.WORDS[:12]),
            ))
        out.append(rng.choice(options))
    return out


def good_record(rng, columns, uid):
    record = {}
    for column in columns:
        record[column["name"]] = gen.typed_value(rng, column["type"], null=0.2 if column["nullable"] else 0)
    record["_id"] = uid
    return record


def spoil(rng, record, columns):
    """a copy which breaks the schema"""
    bad = dict(record)
    column = rng.choice(columns)
    how = rng.choice(["type", "type", "null", "missing", "extra", "renamed", "empty", "notdict"])
    if how == "null":
        strict = [c for c in columns if not c["nullable"]]
        bad[rng.choice(strict)["name"]] = None
    elif how == "type":
        bad[column["name"]] = rng.choice(WRONG[column["type"]])
    elif how == "missing":
        bad.pop(column["name"])
    elif how == "extra":
        bad[rng.choice(["extra", "C0", "_ID", ""])] = rng.choice([None, 1, "x"])
    elif how == "renamed":
        bad[column["name"] + "_"] = bad.pop(column["name"])
    elif how == "empty":
        bad = {}
    else:
        bad = rng.choice([None, 7, "text", [record], ("a",)])
    return how, bad


def in_file(ctx, case, columns):
    name = f"{ctx.scratch}/schema-{case}.json"
    with open(name, "w") as file:
        json.dump(columns, file)
    return name


def one(ctx, case):
    from mabel import Reader, Writer
    from mabel.data import BatchWriter
    from orso.schema import RelationSchema

    rng = ctx.rng
    form = rng.choice(["jsonl", "zstd", "parquet", "flat"])
    columns = make_schema(rng, form)
    use_schema = form == "parquet" or rng.random() < 0.75
    expectations = make_expectations(rng, columns) if (not use_schema or rng.random() < 0.5) else []
    if use_schema:
        schema = rng.choice([list, lambda c: {"columns": c}, lambda c: {"name": "n", "fields": c},
                             lambda c: json.dumps({"name": "n", "columns": c}), lambda c: json.dumps(c), lambda c: in_file(ctx, case, c),
                             lambda c: RelationSchema.from_dict({"name": "n", "columns": c})])([dict(c) for c in columns])
    else:
        schema = False
    blob_size = rng.choice([1, 90, 700, 10**6])
    kind = rng.choice([Writer, BatchWriter])
    day = gen.some_date(rng)
    store = Store()
    inner_writer, inner_reader = adapters(store)
    config = dict(form=form, columns=columns, schema=use_schema, expectations=[e for e, _ in expectations], blob_size=blob_size,
                  kind=kind.__name__, day=str(day))
    ok, writer = ctx.guard(
        "construct writer", kind, schema=schema, dataset="ds/rules", format=form, date=day, inner_writer=inner_writer, blob_size=blob_size,
        set_of_expectations=[e for e, _ in expectations] or None, detail=config,
    )
    if not ok:
        return
    accepted, rejected = [], 0
    for i in range(rng.choice([1, 3, 12, 40])):
        record = good_record(rng, columns, f"{case}-{i}")
        how = "good"
        conforms = True
        if rng.random() < 0.45:
            how, record = spoil(rng, record, columns)
            conforms = not use_schema and isinstance(record, dict)
            if not isinstance(record, dict) and not use_schema:
                continue
        if conforms:
            conforms = all(rule(record) for _, rule in expectations)
            how = how if conforms else "expectation"
        try:
            writer.append(record)
            raised = None
        except Exception as err:
            raised = err
        if conforms and raised is not None:
            ctx.violation("a conforming record was rejected", config=config, record=record, error=repr(raised)[:300], how=how)
            return
        if not conforms and raised is None:
            ctx.violation("a record which doesn't conform was accepted", config=config, record=record, how=how)
            return
        if conforms:
            accepted.append(record)
        else:
            rejected += 1
            ctx.count(f"rejected_{how}")
        ctx.count("appends")
        if writer.records != len(accepted):
            ctx.violation("the record count isn't the number of accepted records", config=config, count=writer.records, accepted=len(accepted))
            return
    ok, _ = ctx.guard("finalize", writer.finalize, detail=config)
    if not ok:
        return
    expected = bag([flat_model(r) for r in accepted] if form == "flat" else accepted)
    stored = bag([r for name, data in sorted(store.data_blobs().items()) for r in decode_blob(name, data)])
    ctx.check(stored == expected, "storage doesn't hold exactly the accepted records", config=config, rejected=rejected, **diff(expected, stored))
    flags = [n for n in store.blobs if n.endswith("frame.complete")]
    if kind is BatchWriter:
        ctx.check(bool(flags) == bool(accepted), "rejected records changed if the frame is complete", config=config, flags=flags, accepted=len(accepted))
    if accepted:
        ok, got = ctx.guard("read back", lambda: list(Reader(dataset="ds/rules", start_date=day, end_date=day, inner_reader=inner_reader)), detail=config)
        if ok:
            ctx.check(bag(got) == expected, "Reader returned other than the accepted records", config=config, **diff(expected, bag(got)))
    ctx.seen((config, [str(r) for r in accepted[:3]], rejected), nontrivial=bool(accepted) and rejected > 0, sample={**config, "accepted": len(accepted), "rejected": rejected})


def construction(ctx):
    """writers which must not come to exist"""
    from mabel import Writer
    from mabel.data import BatchWriter, StreamWriter

    for kind in (Writer, BatchWriter, StreamWriter):
        for label, kwargs in {
            "no schema": {"format": "jsonl"},
            "no schema, default format": {},
            "None": {"format": "zstd", "schema": None},
            "parquet without": {"format": "parquet", "schema": False},
            "default format without": {"schema": False},
            "parquet without, expectations": {"format": "parquet", "schema": False, "set_of_expectations": [{"expectation": "expect_column_to_exist", "column": "a"}]},
            "None, expectations": {"format": "jsonl", "schema": None, "set_of_expectations": [{"expectation": "expect_column_to_exist", "column": "a"}]},
        }.items():
            store = Store()
            inner_writer, _ = adapters(store)
            writer = None
            try:
                writer = kind(dataset="ds/none", date="2021-01-01", inner_writer=inner_writer, **kwargs)
            except Exception:
                ctx.count("refused_constructions")
            if writer is not None:
                if kind is StreamWriter:
                    writer.run_pool_attendant = False
                ctx.violation("a writer without a usable schema was constructed", kind=kind.__name__, case=label)
            ctx.check(not store.blobs, "something was stored by a refused writer", kind=kind.__name__, case=label)
            ctx.seen(("construct", kind.__name__, label))
        # and those which must
        store = Store()
        inner_writer, _ = adapters(store)
        for kwargs in (
            {"schema": False, "format": "jsonl"}, {"schema": ["a"], "format": "jsonl"}, {"schema": [{"name": "a", "type": "VARCHAR"}]},
            {"schema": '[{"name": "a", "type": "VARCHAR"}]'}, {"schema": '{"name": "n", "columns": [{"name": "a", "type": "VARCHAR"}]}', "format": "zstd"},
        ):
            ok, writer = ctx.guard("construct a valid writer", kind, dataset="ds/some", date="2021-01-01", inner_writer=inner_writer, detail=kwargs, **kwargs)
            if ok:
                ctx.guard("append", writer.append, {"a": "1"}, detail=kwargs)
                ctx.guard("finalize", writer.finalize, detail=kwargs)
                ctx.seen(("valid", kind.__name__, kwargs))


def run(ctx):
    ctx.minimum = 60
    ctx.deadline(15, 420)
    construction(ctx)
    for case in range(ctx.n(700, 20000)):
        if not ctx.more():
            break
        one(ctx, case)
    for how in ("type", "null", "missing", "extra", "expectation", "notdict"):
        ctx.require(f"rejected_{how}", 10)
    ctx.require("refused_constructions", 5)
