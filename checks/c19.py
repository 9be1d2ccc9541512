"""
One case is one operation, or a chain of them, on a DictSet of generated records (repeats,
missing columns, values which look the same but aren't, keys in any order) held as a list, a
generator or persisted. The oracle is what the operation means for a list of records, values
compared with their types. to_pandas is compared cell by cell; samples must be sub-sequences
of about the size asked for (8 standard deviations). Non-trivial when there were records;
distinct by records, operation and arguments.
"""

import datetime
import decimal
import math

from vf import setops
from vf.codec import typed

ASSUMPTIONS = [
    "sort_and_take is asked to sort values which can be compared",
    "nested dictionaries are only equal when their keys are in the same order, and values equal as text and type",
    "sample is asked for a fraction from 0 to 1, how many it returns may vary by eight standard deviations",
]

EXTRA = [datetime.datetime(2021, 1, 1), datetime.date(2021, 1, 1), b"bytes", decimal.Decimal("1.0"), (1, 2), math.inf, 2**70]


def make_set(rng, records, storages):
    from mabel import DictSet
    from mabel.data.internals.dictset import STORAGE_CLASS

    how = rng.choice(storages)
    if how == "list":
        return how, lambda: DictSet(records)
    if how == "tuple":
        return how, lambda: DictSet(tuple(records))
    if how == "generator":
        return how, lambda: DictSet(r for r in records)
    if how == "map":
        return how, lambda: DictSet(map(lambda r: r, records))
    return how, lambda: DictSet(iter(records), storage_class=STORAGE_CLASS[how])


def one(ctx, case):
    rng = ctx.rng
    records = setops.records(rng, rng.choice([0, 1, 2, 3, 8, 8, 30, 120]) or 1) if case % 12 else []
    storages = ["list", "tuple", "generator", "map", "MEMORY", "DISK", "COMPRESSED_MEMORY"]
    if rng.random() < 0.3:
        storages = storages[:5]
        for r in records:
            if rng.random() < 0.4:
                r["mix"] = rng.choice(EXTRA)
    how, make = make_set(rng, records, storages)
    pristine = [typed(r) for r in records]
    name, args, do, mean = setops.operation(rng, records)
    if how in ("generator", "map") and name == "get_items":
        return  # these return in the order of the records
    detail = dict(operation=name, arguments=str(args), held=how, size=len(records))
    want = mean(records)
    ok, got = ctx.guard(name, lambda: do(make()), detail=dict(records=str(records[:5])[:500], **detail))
    if not ok:
        return
    if got != want:
        at = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want))) if isinstance(got, list) else None
        ctx.violation("an operation's answer is wrong", at=at, expected=str(want[at:at + 2] if at is not None else want)[:500], got=str(got[at:at + 2] if at is not None else got)[:500],
                      records=str(records[:6])[:600], **detail)
        return
    ctx.check([typed(r) for r in records] == pristine, "an operation changed the records", **detail)
    ctx.count("op " + name)
    ctx.count("held " + how)
    ctx.seen((pristine[:8], len(records), name, str(args), how), nontrivial=bool(records), sample=detail)


def by_position(ctx, case):
    """get_items from a generator, in the order of the records"""
    from mabel import DictSet

    rng = ctx.rng
    records = setops.records(rng, rng.choice([1, 5, 40]))
    at = {rng.randrange(len(records)) for _ in range(rng.randint(1, 6))}
    ok, got = ctx.guard("get_items of a generator", lambda: [typed(r) for r in DictSet(r for r in records).get_items(*at)])
    if ok:
        ctx.check(got == [typed(records[i]) for i in sorted(at)], "get_items of a generator got the wrong records", at=sorted(at), got=str(got)[:300])
        ctx.count("positions")


def pandas_case(ctx, case):
    from mabel import DictSet  # noqa

    rng = ctx.rng
    records = setops.records(rng, rng.choice([1, 4, 25]))
    how, make = make_set(rng, records, ["list", "generator", "MEMORY", "DISK", "COMPRESSED_MEMORY"])
    detail = dict(held=how, records=str(records[:5])[:600])
    ok, frame = ctx.guard("to_pandas", lambda: make().to_pandas(), detail=detail)
    if not ok:
        return
    keys = setops.keys_of(records)
    ctx.check(list(frame.columns) == keys and len(frame) == len(records), "a data frame has the wrong columns or number of rows", columns=list(frame.columns), expected=keys, rows=len(frame), **detail)
    for i, r in enumerate(records):
        for k in keys:
            cell = frame.iloc[i][k] if not isinstance(frame[k].iloc[i], (list, dict)) else frame[k].iloc[i]
            value = r.get(k)
            if value is None:
                right = cell is None or cell != cell
            elif isinstance(value, (list, dict, str)):
                right = cell == value and type(cell) is type(value)
            else:
                right = cell == value
            if not right:
                ctx.violation("a cell of a data frame has the wrong value", row=i, column=k, expected=repr(value), got=repr(cell), **detail)
                return
            ctx.count("cells")
    ctx.seen(("pandas", [typed(r) for r in records], how))


def sample_case(ctx, case):
    from mabel import DictSet

    rng = ctx.rng
    size = rng.choice([0, 1, 10, 300, 300, 4000, 20000])
    records = [{"i": i} for i in range(size)]
    how, make = make_set(rng, records, ["list", "generator", "MEMORY", "DISK", "COMPRESSED_MEMORY"])
    fraction = rng.choice([1, 1.0, 0.5, None, 0.25, 0.1, 0.01, 0.002, 0.001, 0.75, 0.9, 0.6, 0.4, 0, round(rng.random(), 3)])
    ok, got = ctx.guard("sample", lambda: [r["i"] for r in (make().sample() if fraction is None else make().sample(fraction))], detail=dict(held=how, fraction=fraction, size=size))
    if not ok:
        return
    p = 0.5 if fraction is None else fraction
    detail = dict(held=how, fraction=p, size=size, got=len(got))
    ctx.check(all(a < b for a, b in zip(got, got[1:])) and all(0 <= i < size for i in got), "a sample isn't a sub-sequence", sample=got[:30], **detail)
    slack = 8 * math.sqrt(size * p * (1 - p)) + 3 + size * 0.0001
    if p in (0, 1):
        slack = 0
    ctx.check(abs(len(got) - size * p) <= slack, "a sample is far from the fraction asked for", slack=slack, **detail)
    ctx.count("samples")
    ctx.seen(("sample", how, p, size, got[:20]), nontrivial=size > 1, sample=detail)


def many(ctx):
    """so many different records that identities of too few bits would be the same"""
    from mabel import DictSet

    rng = ctx.rng
    size = ctx.n(150_000, 400_000)
    spread = rng.randint(1, 10**6)
    for columns in ((), ("v",)):
        source = ({"v": i * spread, "w": "x"} for i in range(size))
        ok, got = ctx.guard("distinct of many records", lambda: sum(1 for _ in DictSet(source).distinct(*columns)))
        if ok:
            ctx.check(got == size, "records which are all different aren't distinct", size=size, got=got, columns=columns)
            ctx.count("many", got)
            ctx.seen(("many", columns, size, spread))


def run(ctx):
    ctx.minimum = 300
    ctx.deadline(14, 420)
    for case in range(ctx.n(150, 1500)):
        sample_case(ctx, case)
        by_position(ctx, case)
    many(ctx)
    for case in range(ctx.n(80, 1500)):
        pandas_case(ctx, case)
    for case in range(ctx.n(6000, 120000)):
        if not ctx.more():
            break
        one(ctx, case)
    ctx.require("samples", 50)
    ctx.require("cells", 500)
    for op in ("list", "first", "take", "itake", "select", "select many", "filter", "distinct", "distinct on", "keys", "types", "collect", "get_items", "sort", "chain"):
        ctx.require("op " + op, 10)
