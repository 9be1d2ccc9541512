"""
One case is a program of operations - on a DictSet over the caller's list (all storage classes),
on collections and groups made of it, record helpers, filters, evaluators, writers of every class
and format, or Readers - with every argument the caller gives kept in a snapshot (a deep copy,
with types, key order, identity of the members and class) which is compared after each operation
and again once everything was used. Other cases advance two operations on one list-backed set by
turns, at random, against each of them alone. Non-trivial when the operation had records; distinct
by program.
"""

import copy
import datetime
import decimal
import gc
import json

from vf import gen
from vf.store import Store, adapters

ASSUMPTIONS = [
    "the caller's own functions don't change what they're given",
    "what a caller does to the records of a result isn't an operation",
]


def deep(value):
    """everything about a value: types, order of keys, members"""
    if isinstance(value, dict):
        return (type(value).__name__, id(value), [(deep(k), deep(v)) for k, v in value.items()])
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, id(value) if isinstance(value, list) else 0, [deep(v) for v in value])
    if isinstance(value, (set, frozenset)):
        return (type(value).__name__, sorted(map(repr, value)))
    return (type(value).__name__, repr(value))


class Kept:
    """snapshots of what the caller owns"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.things = []

    def __call__(self, name, value):
        self.things.append((name, value, deep(value), repr(value)))
        return value

    def unchanged(self, what, **detail):
        for name, value, before, text in self.things:
            self.ctx.count("comparisons")
            if deep(value) != before:
                self.ctx.violation("an operation changed the caller's data", operation=what, argument=name, before=text[:400], after=repr(value)[:400], **detail)
                return False
        return True


def records_of(rng, nested=True):
    out = []
    for i in range(rng.choice([0, 1, 3, 8, 15])):
        record = {"k": rng.choice("abc"), "n": rng.choice([0, 1, 2, -3, 7]), "name": gen.word(rng), "i": i}
        if nested:
            record["tags"] = [rng.choice("xyz") for _ in range(rng.randint(0, 3))]
            record["sub"] = {"a": rng.randint(0, 3), "b": {"c": [1, {"d": None}]}}
        if rng.random() < 0.3:
            record["extra"] = rng.choice([None, 1.5, True, "text"])
        items = list(record.items())
        rng.shuffle(items)
        out.append(dict(items))
    if out and rng.random() < 0.3:
        out.append(dict(out[0]))
    return out


def operations(rng, kept):
    """(name, function of the set) - the result is used up by the caller"""
    columns = kept("columns", rng.sample(["k", "n", "name", "i", "tags", "sub", "missing"], rng.randint(1, 4)))
    wanted = kept("names", rng.sample(["k", "n", "name"], 2))
    dnf = kept("filters", rng.choice([[("n", ">", 0)], [[("k", "==", "a")], [("n", "==", 1), ("k", "!=", "b")]], [("name", "in", ["x", "alpha", ""])], [("k", "in", ["a", "b"])], ("n", "<", 5)]))
    where = rng.choice(["n > 0", "k = 'a' OR n = 1", "k IN ('a', 'b')", "NOT n = 0", "name LIKE '%a%'"])
    aggregates = kept("aggregates", rng.choice([[("SUM", "n")], [("MAX", "n"), ("COUNT", "i")], [("AVG", "n"), ("MIN", "n")]]))
    n = rng.choice([0, 1, 3, 100])
    return [
        ("select", lambda d: d.select(columns)),
        ("select tuple", lambda d: d.select(tuple(columns))),
        ("getitem", lambda d: d[columns]),
        ("select *", lambda d: d.select(["*"])),
        ("select * and more", lambda d: d.select(["*", "k"])),
        ("filter where", lambda d: d.filter(where)),
        ("filter dnf", lambda d: d.filter(dnf)),
        ("filter callable", lambda d: d.filter(lambda r: r["n"] > 0)),
        ("distinct", lambda d: d.distinct()),
        ("distinct columns", lambda d: d.distinct(*wanted)),
        ("sample", lambda d: d.sample(0.4)),
        ("take", lambda d: d.take(n)),
        ("itake", lambda d: d.itake(n)),
        ("first", lambda d: d.first()),
        ("sort_and_take", lambda d: d.sort_and_take("n", max(n, 1), rng.random() < 0.5)),
        ("get_items", lambda d: list(d.get_items(0))),
        ("collect_list", lambda d: d.collect_list()),
        ("collect_list column", lambda d: d.collect_list("tags")),
        ("keys", lambda d: d.keys()),
        ("types", lambda d: d.types()),
        ("sum", lambda d: d.sum("n")),
        ("max", lambda d: d.max("n")),
        ("min_max", lambda d: d.min_max("n")),
        ("mean", lambda d: d.mean("n")),
        ("hash", lambda d: hash(d)),
        ("count", lambda d: d.count()),
        ("ascii", lambda d: d.to_ascii_table(n)),
        ("html", lambda d: d.to_html_table(n)),
        ("repr", lambda d: repr(d)),
        ("pandas", lambda d: d.to_pandas()),
        ("group_by", lambda d: list(d.group_by(wanted).aggregate(aggregates))),
        ("groups", lambda d: list(d.group_by(wanted).groups())),
        ("group_by count", lambda d: d.group_by("k").count()),
        ("collect_set", lambda d: collected(d.collect_set("k"), wanted)),
        ("collect_set dedupe", lambda d: collected(d.select(["k", "n"]).collect_set("k", dedupe=True), wanted)),
        ("collect_set all dedupe", lambda d: collected(d.collect_set("k", dedupe=True), wanted)),
        ("histogram", lambda d: histogram(d)),
    ]


def collected(collection, wanted):
    out = [collection.count(), list(collection.items()), collection["a"][tuple(wanted)], collection["a"]["n"], collection["a", "b"].count()]
    out.append(collection.aggregate("n", max) if all(x for x in collection.aggregate("n", list).values()) else None)
    out.append(collection.apply(len))
    return out


def histogram(d):
    from mabel.data.internals.histogram import Histogram

    return repr(Histogram(d, key="n", number_of_bins=4))


def used(result):
    from mabel import DictSet

    if isinstance(result, DictSet) or hasattr(result, "__next__"):
        return list(result)
    return result


def sets(ctx, case):
    from mabel import DictSet
    from mabel.data.internals.dictset import STORAGE_CLASS

    rng = ctx.rng
    kept = Kept(ctx)
    records = kept("records", records_of(rng))
    # a column of no values can't be summarised
    storage = rng.choice([STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.MEMORY, STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY])
    dictset = DictSet(records, storage_class=storage)
    program = []
    detail = dict(storage=storage.name, records=len(records))
    current = dictset
    for _ in range(rng.randint(1, 5)):
        name, operation = rng.choice(operations(rng, kept))
        program.append(name)
        try:
            result = operation(current)
            if isinstance(result, DictSet) and rng.random() < 0.4 and storage == STORAGE_CLASS.MEMORY:
                list(result)
                current = result
            elif isinstance(result, DictSet) and rng.random() < 0.4:
                # operations on the results of operations
                current = DictSet(list(result), storage_class=storage)
            else:
                used(result)
                current = dictset
        except Exception as err:
            # of an empty set, or of a column the set doesn't have; other properties judge what's an error
            ctx.count("errors")
            program.append(type(err).__name__)
            current = dictset
        if not kept.unchanged(name, program=program, **detail):
            return
        ctx.count("operations")
    dictset = current = None
    kept.unchanged("the end", program=program, **detail)
    ctx.seen((program, storage.name, len(records)), nontrivial=bool(records), sample=dict(detail, program=program))


def turns(ctx, case):
    """two operations on the same set, by turns"""
    from mabel import DictSet

    rng = ctx.rng
    records = records_of(rng)
    kept = Kept(ctx)
    kept("records", records)
    from mabel.data.internals.dictset import STORAGE_CLASS

    storage = STORAGE_CLASS.NO_PERSISTANCE
    lazy = [o for o in operations(rng, kept) if o[0] in ("select", "select *", "filter where", "filter dnf", "filter callable", "distinct", "distinct columns", "take", "itake", "sort_and_take", "getitem", "select * and more")]
    lazy += [("iterate", lambda d: d), ("items", lambda d: d.get_items(*range(len(records)))), ("collection", lambda d: d.collect_set("k").items()), ("grouped", lambda d: d.group_by("k").aggregate([("SUM", "n")]))]
    pair = [rng.choice(lazy), rng.choice(lazy)]
    pair = [(name, operation) for name, operation in pair]
    seed = rng.random()

    def alone(operation):
        rng.seed(seed)
        return [repr(r) for r in operation(DictSet(records, storage_class=storage))]

    alone_state = rng.getstate()
    want = [alone(operation) for _, operation in pair]
    dictset = DictSet(records, storage_class=storage)
    rng.seed(seed)
    iterators = []
    for _, operation in pair:
        rng.seed(seed)
        iterators.append(iter(operation(dictset)))
    rng.setstate(alone_state)
    got = [[], []]
    open_ = [0, 1]
    order = []
    while open_:
        which = rng.choice(open_)
        order.append(which)
        ok, record = ctx.guard("advance", next, iterators[which], None, detail=dict(pair=[n for n, _ in pair]))
        if not ok:
            return
        if record is None:
            open_.remove(which)
        else:
            got[which].append(repr(record))
    for which in (0, 1):
        ctx.check(got[which] == want[which], "operations on the same set affected each other", operations=[n for n, _ in pair], wrong=pair[which][0],
                  got=got[which][:5], want=want[which][:5], order=order[:40], storage=storage.name)
    kept.unchanged("two operations", operations=[n for n, _ in pair])
    ctx.count("pairs")
    ctx.seen(("turns", [n for n, _ in pair], order), nontrivial=bool(records), sample={"turns": [n for n, _ in pair], "order": order[:20]})


SCHEMAS = [
    [{"name": "_id", "type": "VARCHAR"}, {"name": "n", "type": "INTEGER"}],
    [{"name": "_id"}, {"name": "n"}],
    {"columns": [{"name": "_id", "type": "VARCHAR"}, {"name": "n", "type": "INTEGER"}], "name": "named"},
    {"columns": [{"name": "_id", "type": "VARCHAR"}, {"name": "n", "type": "INTEGER"}]},
    {"fields": [{"name": "_id", "type": "VARCHAR"}, {"name": "n", "type": "INTEGER"}]},
    {"fields": [{"name": "_id", "type": "VARCHAR", "aliases": ["id"], "nullable": True}, {"name": "n", "type": "INTEGER"}], "name": "x"},
]


def writers(ctx, case):
    from mabel import Writer
    from mabel.data import BatchWriter, StreamWriter
    from mabel.data.validator import schema_loader
    from mabel.data.writers.database_writer import DatabaseWriter

    rng = ctx.rng
    kept = Kept(ctx)
    store = Store()
    kind = rng.choice([Writer, BatchWriter, StreamWriter, DatabaseWriter])
    form = rng.choice(["jsonl", "zstd", "flat", "parquet"])
    typed_ = form == "parquet" or kind in (StreamWriter, DatabaseWriter) or rng.random() < 0.5
    schema = kept("schema", copy.deepcopy(rng.choice(SCHEMAS)) if typed_ else False)
    records = []
    for i in range(rng.randint(1, 6)):
        if typed_:
            record = {"_id": f"{case}.{i}", "n": rng.choice([None, 1, -5, 2**40])}
            if rng.random() < 0.15:
                record["n"] = rng.choice(["wrong", [1], {"a": 1}])
            if rng.random() < 0.2:
                del record["n"]
            if rng.random() < 0.2:
                record["more"] = rng.choice([[1], {"a": {"b": 1}}, 2])
        else:
            record = {"_id": f"{case}.{i}", "n": gen.json_value(rng), "o": {"deep": [{"er": gen.scalar(rng)}]}}
            if form in ("jsonl", "zstd") and rng.random() < 0.3:
                record.update(when=datetime.datetime(2024, 1, 2, 3, 4, 5), day=datetime.date(2024, 1, 2))
        items = list(record.items())
        rng.shuffle(items)
        records.append(kept(f"record {i}", dict(items)))
    kept("records", records)
    partitions = kept("partitions", rng.choice([["year_{yyyy}/month_{mm}/day_{dd}"], ["{yyyy}", "{mm}", "{dd}"], []]))
    date = kept("date", rng.choice(["2024-02-03", datetime.date(2024, 2, 3), datetime.datetime(2024, 2, 3, 4, 5)]))
    detail = dict(kind=kind.__name__, form=form, schema=str(schema)[:200])
    refused = []

    def write():
        parameters = dict(schema=schema, dataset="keep/ds", format=form, date=date, inner_writer=adapters(store)[0], blob_size=rng.choice([1, 100, 10**6]))
        if kind is not DatabaseWriter:
            parameters["partitions"] = partitions
        if kind is BatchWriter:
            parameters["metadata"] = kept("metadata", {"a": [1]})
        if kind is StreamWriter:
            parameters["dataset"] = "keep/{_id}"
            parameters["partitions"] = partitions or ["{yyyy}"]
        if kind is DatabaseWriter:
            parameters = dict(schema=schema, dataset="keep", inner_writer=Recorder)
        if rng.random() < 0.3 and kind in (Writer, BatchWriter):
            parameters["set_of_expectations"] = kept("expectations", [{"expectation": "expect_column_to_exist", "column": "_id"}])
        kept("parameters", {k: v for k, v in parameters.items() if k not in ("inner_writer",)})
        writer = kind(**parameters)
        for i, record in enumerate(records):
            try:
                writer.append(record)
            except Exception as err:
                refused.append(type(err).__name__)
            if not kept.unchanged(f"append of record {i}", **detail):
                return
        writer.finalize()

    try:
        write()
    except Exception as err:
        ctx.count("errors")
        detail["error"] = repr(err)[:200]
        if not (form == "parquet" or "xpectation" in repr(err)):
            ctx.guard("write", lambda: (_ for _ in ()).throw(err), detail=detail)
    kept.unchanged("writing", **detail)
    if schema:
        # the definition is still good for another
        ok, again = ctx.guard("use a definition again", lambda: (schema_loader(schema), schema_loader(schema)), detail=detail)
        if ok:
            ctx.check([c.name for c in again[0].columns] == [c.name for c in again[1].columns] == ["_id", "n"], "a schema definition means something else the second time", **detail)
    kept.unchanged("loading the schema", **detail)
    gc.collect()
    kept.unchanged("the end of the writer", **detail)
    ctx.count("writers")
    ctx.count("appended", len(records) - len(refused))
    ctx.seen((detail, records), nontrivial=True, sample=detail)


class Recorder:
    """an inner writer of a DatabaseWriter"""

    def __init__(self, *args, **kwargs):
        self.batches = []

    def commit(self, batch, *args, **kwargs):
        self.batches.append(list(batch))
        return len(self.batches)

    def finalize(self, *args, **kwargs):
        return True


def helpers(ctx, case):
    from mabel.data.internals.dnf_filters import DnfFilters
    from mabel.data.internals.expression import Expression
    from mabel.data.internals.records import flatten, order, select_record_fields, set_value
    from mabel.data.readers.internals.inline_evaluator import Evaluator

    rng = ctx.rng
    kept = Kept(ctx)
    record = kept("record", (records_of(rng) or [{"k": "a", "n": 1, "name": "x", "i": 0, "tags": ["y"], "sub": {}}])[0])
    fields = kept("fields", ["n", "missing", "sub"])
    dnf = kept("filters", rng.choice([[("n", ">", 0)], [[("k", "==", "a")], [("n", "==", 1)]], [("k", "in", ["a", "b"])], ("k", "==", "a"), [("tags", "contains", "x")]]))
    many = kept("many", [record, copy.deepcopy(record)])
    trials = [
        ("flatten", lambda: flatten(record)),
        ("flatten with separator", lambda: flatten(record, separator="_", parent_key="p")),
        ("order", lambda: order(record)),
        ("set_value", lambda: set_value(record, rng.choice(["n", "new"]), 9)),
        ("set_value function", lambda: set_value(record, "n", lambda r: r["n"] + 1)),
        ("select_record_fields", lambda: select_record_fields(record, fields)),
        ("DnfFilters", lambda: list(DnfFilters(dnf).filter_dictset(many))),
        ("DnfFilters call", lambda: DnfFilters(dnf)(record)),
        ("Expression", lambda: (lambda e: (e.evaluate(record), e(record), e.to_dnf(), e.evaluate(record)))(Expression(rng.choice(["n > 0 AND k = 'a'", "NOT (n = 1 OR k IN ('a'))", "name LIKE '%a%'", "tags CONTAINS 'x'"])))),
        ("Evaluator", lambda: Evaluator(rng.choice(["*", "n, k", "UPPER(k), n AS m, *", "CONCAT(tags), k", "GET(sub, 'a')", "LEN(name) AS size, name"]))(record)),
    ]
    for name, trial in rng.sample(trials, 5):
        try:
            trial()
        except Exception as err:
            ctx.count("errors")
            detail = repr(err)
        if not kept.unchanged(name):
            return
        ctx.count("helpers")
    ctx.seen(("helpers", json.dumps(record, default=str)), sample={"record": str(record)[:200]})


def readers(ctx, case):
    from mabel import Reader
    from mabel.data.readers import SqlReader

    rng = ctx.rng
    kept = Kept(ctx)
    store = Store()
    for b in range(3):
        store.put(f"keep/ds/2024-02-03/{b}.jsonl", b"".join(json.dumps({"k": "abc"[i % 3], "n": i, "o": {"p": [i]}}).encode() + b"\n" for i in range(4)))
    parameters = dict(dataset="keep/ds", partitions=kept("partitions", ["{yyyy}-{mm}-{dd}"]), start_date="2024-02-03", end_date="2024-02-03")
    if rng.random() < 0.6:
        parameters["filters"] = kept("filters", rng.choice([[("n", ">", 0)], [[("k", "==", "a")], [("n", "==", 1)]], [("k", "in", ["a", "b"])]]))
    if rng.random() < 0.3:
        parameters["valid_dataset_prefixes"] = kept("prefixes", ["keep/", "other/"])
    if rng.random() < 0.3:
        parameters["partition_filter"] = kept("partition_filter", rng.choice([("k", "=", "a"), ["k", "=", "a"]]))
    if rng.random() < 0.5:
        first = Reader(inner_reader=adapters(store)[1], **parameters)
        try:
            for _ in range(rng.randint(1, 6)):
                next(first)
            parameters["cursor"] = kept("cursor", first.cursor.get())
        except StopIteration:
            pass
    kept("parameters", parameters)
    detail = dict(parameters={k: str(v) for k, v in parameters.items()})

    def read():
        dictset = Reader(inner_reader=adapters(store)[1], **parameters)
        n = rng.choice([None, 2])
        return list(dictset) if n is None else list(dictset.take(n))

    ok, got = ctx.guard("read", read, detail=detail)
    if not kept.unchanged("Reader", **detail):
        return
    # the same parameters give the same again
    ok, _ = ctx.guard("read", read, detail=detail)
    if rng.random() < 0.3:
        extra = {k: v for k, v in parameters.items() if k in ("partitions", "start_date", "end_date")}
        ctx.guard("read", lambda: list(SqlReader("SELECT k, COUNT(*) FROM keep.ds GROUP BY k", inner_reader=adapters(store)[1], **extra)), detail=detail)
    kept.unchanged("Reader again", **detail)
    ctx.count("readers")
    ctx.seen(detail, nontrivial=bool(got), sample=detail)


def run(ctx):
    ctx.minimum = 300
    ctx.deadline(16, 420)
    for case in range(ctx.n(1500, 40000)):
        if not ctx.more():
            break
        sets(ctx, case)
        sets(ctx, case)
        turns(ctx, case)
        turns(ctx, case)
        helpers(ctx, case)
        if case % 2 == 0:
            writers(ctx, case)
            readers(ctx, case)
    for name, least in (("comparisons", 3000), ("operations", 300), ("pairs", 100), ("writers", 30), ("appended", 60), ("helpers", 200), ("readers", 30)):
        ctx.require(name, least)
