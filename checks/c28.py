"""
One case is a session with a DatabaseWriter: a schema (given as a list, dictionary, text,
RelationSchema or file), sometimes expectations, any number of records around the batch size,
some of which break the schema or the expectations, commits and finalises which sometimes fail
(before anything was taken) and are tried again, and the writer going away. The inner writer is
a monitor which records the dataframes it is handed. The oracle is the list of records which
were accepted. Non-trivial when a record was handed over; distinct by the session.
"""

import gc
import json
import os

from vf import gen
from vf.codec import typed

ASSUMPTIONS = [
    "an inner commit which fails has taken nothing",
    "a batch holds at most 100 records unless a commit of it failed before (then it's kept, and handed over with what came later)",
    "a session is used by one thread",
    "records which break the schema have a missing, extra, null or wrongly typed value, or aren't dictionaries",
]

TYPES = ["VARCHAR", "INTEGER", "BOOLEAN", "DOUBLE"]
WRONG = {"VARCHAR": [1, 2.5, ["a"]], "INTEGER": ["1", 2.5, [1]], "BOOLEAN": ["true", 2.5], "DOUBLE": ["1.0", [1.0]]}


class Refused(Exception):
    pass


def make_schema(ctx, rng):
    names = rng.sample(["a", "b", "Name", "with space", "ключ", "value", "x1"], rng.randint(0, 4))
    columns = [{"name": "_id", "type": "INTEGER", "nullable": False}]
    for name in names:
        columns.append({"name": name, "type": rng.choice(TYPES), "nullable": rng.random() < 0.8})
    rng.shuffle(columns)
    form = rng.choice(["list", "dict", "fields", "text", "relation", "file"])
    if form == "list":
        given = [dict(c) for c in columns]
    elif form == "dict":
        given = {"name": "t", "columns": [dict(c) for c in columns]}
    elif form == "fields":
        given = {"fields": [dict(c) for c in columns]}
    elif form == "text":
        given = json.dumps({"name": "t", "columns": columns})
    elif form == "file":
        given = os.path.join(ctx.scratch, "schema.json")
        with open(given, "w") as f:
            json.dump({"columns": columns}, f)
    else:
        from orso.schema import FlatColumn, RelationSchema

        given = RelationSchema(name="t", columns=[FlatColumn(**c) for c in columns])
    return columns, form, given


def good(rng, columns, uid):
    record = {}
    for c in columns:
        if c["name"] == "_id":
            record["_id"] = uid
        else:
            record[c["name"]] = gen.typed_value(rng, c["type"], 0.2 if c["nullable"] else 0)
    return record


def bad(rng, columns, uid):
    record = good(rng, columns, uid)
    how = rng.choice(["missing", "extra", "null", "type", "not a record"])
    if how == "missing":
        record.pop(rng.choice(list(record)))
    elif how == "extra":
        record[rng.choice(["extra", "_ID", "a "])] = 1
    elif how == "null":
        record[rng.choice([c["name"] for c in columns if not c["nullable"]])] = None
    elif how == "type":
        c = rng.choice(columns)
        record[c["name"]] = rng.choice(WRONG[c["type"]])
    else:
        return how, rng.choice([None, [1, 2], "text", 5])
    return how, record


def recorder(log):
    """an inner writer which records what it's handed"""

    class Recorder:
        def __init__(self, **kwargs):
            log["kwargs"] = kwargs

        def commit(self, dataframe):
            log["calls"].append("commit")
            if log["failures"] and log["failures"].pop(0):
                raise Refused("commit")
            names = list(dataframe.column_names)
            batch = [dict(zip(names, tuple(row))) for row in dataframe]
            log["batches"].append(batch)
            log["events"].append(("batch", len(batch)))

        def finalize(self):
            log["calls"].append("finalize")
            if log["final_failures"] and log["final_failures"].pop(0):
                raise Refused("finalize")
            log["events"].append(("finalize", sum(len(b) for b in log["batches"])))

    return Recorder


def same(got, want):
    return list(got) == list(want) and all(typed(got[k]) == typed(want[k]) for k in want)


def session(ctx, case):
    from mabel.data import DatabaseWriter

    rng = ctx.rng
    columns, form, schema = make_schema(ctx, rng)
    size = rng.choice([0, 1, 2, 50, 99, 100, 101, 150, 199, 200, 201, 250, 300, 301, rng.randint(0, 1200)])
    broken = rng.choice([0, 0, 0.02, 0.3])
    faults = rng.random() < 0.25
    expect = rng.random() < 0.25
    log = {"calls": [], "batches": [], "events": [], "kwargs": None, "failures": [], "final_failures": []}
    if faults:
        log["failures"] = [rng.random() < 0.5 for _ in range(6)]
        log["final_failures"] = [rng.random() < 0.5 for _ in range(rng.randint(0, 3))]
    kwargs = {"dataset": rng.choice(["table", "a.b", ""]), "engine": object()}
    if expect:
        kwargs["set_of_expectations"] = [{"expectation": "expect_column_values_to_be_between", "column": "_id", "minimum": 0, "maximum": 10**6}]
    detail = dict(schema=str(columns), form=form, size=size, faults=str((log["failures"], log["final_failures"])), expectations=expect)
    ok, writer = ctx.guard("DatabaseWriter", DatabaseWriter, schema=schema, inner_writer=recorder(log), detail=detail, **kwargs)
    if not ok:
        return
    handed = log["kwargs"] or {}
    ctx.check(handed.get("dataset") == kwargs["dataset"] and handed.get("engine") is kwargs["engine"], "the inner writer wasn't given the parameters", got=str(handed), **detail)
    ctx.check([c.name for c in handed["schema"].columns] == [c["name"] for c in columns] if "schema" in handed else False, "the inner writer wasn't given the schema", **detail)

    accepted = []
    failed_commits = 0
    order = [c["name"] for c in columns]
    for i in range(size):
        kind = "good"
        if broken and rng.random() < broken:
            kind, record = bad(rng, columns, i)
        elif expect and rng.random() < 0.1:
            kind, record = "expectation", good(rng, columns, -1 - i)
        else:
            record = good(rng, columns, i)
        if rng.random() < 0.1 and isinstance(record, dict):
            # the order of a record's keys doesn't matter
            record = dict(sorted(record.items(), key=lambda kv: rng.random()))
        before = len(log["batches"])
        raised = None
        try:
            writer.append(record)
        except Refused as err:
            raised = err
            failed_commits += 1
        except Exception as err:  # noqa - judged below
            raised = err
        if kind == "good":
            if raised is None or isinstance(raised, Refused):
                accepted.append({name: record[name] for name in order})
            else:
                ctx.violation(f"a record which fits was refused: {type(raised).__name__}: {raised}", record=str(record), **detail)
                return
        else:
            ctx.count("refused: " + kind)
            if not ctx.check(raised is not None and not isinstance(raised, Refused), "a record which should be refused was accepted", kind=kind, record=str(record), **detail):
                return
        if len(log["batches"]) > before + 1:
            ctx.violation("one record caused two commits", **detail)
            return
        tries = log["calls"].count("commit")
        if tries != len(log["batches"]) + failed_commits:
            ctx.violation("a failed commit wasn't reported", commits=tries, batches=len(log["batches"]), reported=failed_commits, **detail)
            return
    if rng.random() < 0.2:
        try:
            writer.commit()
        except Refused:
            failed_commits += 1
    # finalise until it works
    result = None
    for attempt in range(12):
        calls = list(log["calls"])
        successes = len(log["events"])
        try:
            result = writer.finalize()
            failed = len(log["calls"]) - len(calls) - (len(log["events"]) - successes)
            ctx.check(failed == 0, "finalize hid a failure", calls=log["calls"][len(calls):], **detail)
            break
        except Exception as err:
            failed = len(log["calls"]) - len(calls) - (len(log["events"]) - successes)
            if not ctx.check(failed > 0, f"finalize failed when nothing did: {type(err).__name__}: {err}", **detail):
                return
            chain = [err, err.__cause__, err.__context__]
            ctx.check(any(isinstance(e, Refused) for e in chain), "finalize reported another error", got=repr(err), **detail)
            ctx.count("finalise failed")
    else:
        ctx.violation("finalize never worked", **detail)
        return
    if rng.random() < 0.15:
        # finalised again: nothing is left to hand over
        again = list(log["batches"])
        log["failures"], log["final_failures"] = [], []
        ok, _ = ctx.guard("a second finalize", writer.finalize, detail=detail)
        if not ok or not ctx.check(log["batches"] == again, "a second finalize handed over records again", batches=[len(b) for b in log["batches"]], **detail):
            return
        ctx.count("finalised again")
        del log["events"][len(again) + 1:]
    final = list(log["events"])
    ctx.check(result == len(accepted), "finalize returned the wrong number of records", got=result, expected=len(accepted), **detail)
    ctx.check(final and final[-1][0] == "finalize", "the inner writer wasn't finalised last", events=str(final[-4:]), **detail)
    ctx.check(sum(e[0] == "finalize" for e in final) == 1, "the inner writer was finalised more than once", events=str(final[-4:]), **detail)
    # it goes away
    writer = None
    gc.collect()
    ctx.check(log["events"] == final, "more was handed over or finalised when the writer went away", before=str(final[-3:]), after=str(log["events"][-3:]), **detail)

    delivered = [record for batch in log["batches"] for record in batch]
    ids = [r.get("_id") for r in delivered]
    want = [r["_id"] for r in accepted]
    if not ctx.check(ids == want, "the records handed over aren't the records accepted, in order", missing=[i for i in want if i not in ids][:5], repeated=[i for i in set(ids) if ids.count(i) > 1][:5], extra=[i for i in ids if i not in want][:5], got=len(ids), expected=len(want), **detail):
        return
    for got, expected in zip(delivered, accepted):
        if not same(got, expected):
            ctx.violation("a record was changed on its way", got=str(got), expected=str(expected), **detail)
            return
    if not failed_commits:
        large = [len(b) for b in log["batches"] if len(b) > 100 or not b]
        ctx.check(not large, "a batch is empty or larger than 100", sizes=large, **detail)
    ctx.count("records handed over", len(delivered))
    ctx.count("batches", len(log["batches"]))
    ctx.count("failed commits", failed_commits)
    ctx.count("schema as " + form)
    ctx.seen((str(columns), form, size, [len(b) for b in log["batches"]], log["calls"], len(accepted)), nontrivial=bool(delivered))


def schemaless(ctx):
    from mabel.data import DatabaseWriter

    for schema in (None, False):
        log = {"calls": [], "batches": [], "events": [], "kwargs": None, "failures": [], "final_failures": []}
        try:
            DatabaseWriter(schema=schema, inner_writer=recorder(log), dataset="x")
            ctx.violation("a database writer without a schema was made", schema=repr(schema))
        except ValueError:
            ctx.count("no schema refused")
        ctx.check(log["kwargs"] is None, "the inner writer was made without a schema")


def finalizers(ctx):
    """the finalizer given to a writer built on the base class is called once, after the data"""
    from mabel.adapters.database.base_database_writer import BaseDatabaseWriter
    from mabel.data import DatabaseWriter

    rng = ctx.rng
    for size in (0, 0, 0, 1, 1, 1, 100, 100, 101, 101):
        events = []

        class Inner(BaseDatabaseWriter):
            def commit(self, dataframe):
                events.append(dataframe.rowcount)

        writer = DatabaseWriter(schema=["a"], inner_writer=Inner, dataset="x", finalizer=lambda w: events.append(type(w).__name__))
        for i in range(size):
            writer.append({"a": i})
        writer.finalize()
        if rng.random() < 0.7:
            writer.finalize()
        del writer
        gc.collect()
        expected = [100] * (size // 100) + ([size % 100] if size % 100 else []) + ["Inner"]
        ctx.check(events == expected, "the finalizer wasn't called once after the data", got=events, expected=expected)
        ctx.count("finalizers")


def run(ctx):
    ctx.minimum = ctx.n(80, 1500)
    ctx.deadline(10, 150)
    schemaless(ctx)
    finalizers(ctx)
    for case in range(ctx.n(600, 20000)):
        if not ctx.more():
            break
        session(ctx, case)
    ctx.require("records handed over", 2000)
    ctx.require("failed commits", 5)
    ctx.require("finalise failed", 5)
    for kind in ("missing", "extra", "null", "type", "not a record", "expectation"):
        ctx.require("refused: " + kind, 3)
    ctx.require("finalizers", 2)
    ctx.require("finalised again", 5)
