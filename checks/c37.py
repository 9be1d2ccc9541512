"""
One case is a list of records (missing and None collecting values, values of several types,
repeats, nested values) in a list, generator, or any storage class, collected by a column, with
or without dedupe. The oracle is a partition made with a plain loop; len, membership, count (all
and one), items, one or many collections, their columns, aggregate and apply are all compared
with it, in a random order and some of them twice, and the source records with a copy. With
dedupe, records which differ in a type are distinct. Non-trivial with two collections or more;
distinct by the records and column.
"""

import copy

from vf import gen
from vf.codec import typed

ASSUMPTIONS = [
    "collecting values are hashable and not tuples; those equal to each other (1, True, 1.0) share a collection",
    "the order of the collections isn't specified, the order in each is",
    "records have text keys",
]

VALUES = ["bob", "alice", "", "None", "é", "a b", "1", None, None, 0, 1, -1, 2, True, False, 1.0, 0.5, 2**60]


def make(rng):
    size = rng.choice([0, 1, 2, 5, 12, 12, 40, 120])
    few = rng.sample(VALUES, rng.randint(1, 6))
    out = []
    for i in range(size):
        if out and rng.random() < 0.25:
            record = copy.deepcopy(rng.choice(out))
            if rng.random() < 0.3:
                record[rng.choice(["v", "w"])] = rng.choice([1, True, 1.0, "1", None, 0, False])
            elif rng.random() < 0.2:
                record = dict(reversed(list(record.items())))
        else:
            record = {}
            if rng.random() < 0.85:
                record["c"] = rng.choice(few)
            for name in ("v", "w", "a b"):
                if rng.random() < 0.7:
                    record[name] = rng.choice([None, 0, 1, 1.0, True, False, "1", "", "x", 7]) if rng.random() < 0.8 else gen.json_value(rng)
            if rng.random() < 0.5:
                record["id"] = i
        out.append(record)
    return out


def partition(records, column, dedupe):
    out = {}
    for record in records:
        rest = {k: v for k, v in record.items() if k != column}
        out.setdefault(record.get(column), []).append(rest)
    if dedupe:
        for key, members in out.items():
            firsts = {}
            for member in members:
                firsts.setdefault(typed(member), member)
            out[key] = list(firsts.values())
    return out


def rows(records):
    return [typed(r) for r in records]


def one(ctx, case):
    from mabel import DictSet
    from mabel.data.internals.dictset import STORAGE_CLASS

    rng = ctx.rng
    records = make(rng)
    original = copy.deepcopy(records)
    column = rng.choice(["c", "c", "c", "c", "v scalar", "id", "never"])
    if column == "v scalar":
        column = "v"
        for r in records:
            if isinstance(r.get("v"), (list, dict)):
                r["v"] = "nested"
        original = copy.deepcopy(records)
    dedupe = rng.random() < 0.4
    how = rng.choice(["list", "list", "generator", "MEMORY", "DISK", "COMPRESSED_MEMORY"])
    detail = dict(column=column, dedupe=dedupe, how=how, data=str(records[:6])[:700], size=len(records))

    def collected():
        if how == "list":
            ds = DictSet(records)
        elif how == "generator":
            ds = DictSet(r for r in records)
        else:
            ds = DictSet(iter(records), storage_class=STORAGE_CLASS[how])
        return ds.collect_set(column, dedupe=dedupe) if dedupe or rng.random() < 0.5 else ds.collect_set(column)

    ok, cs = ctx.guard("collect_set", collected, detail=detail)
    if not ok:
        return
    want = partition(original, column, dedupe)
    names = list(want)

    def all_counts():
        got = cs.count()
        ctx.check(got == {k: len(v) for k, v in want.items()}, "the counts don't agree with the records", got=str(got), expected=str({k: len(v) for k, v in want.items()}), **detail)

    def one_count():
        for name in rng.sample(names, min(3, len(names))) + ["missing", 99]:
            if name is not None:
                ctx.check(cs.count(name) == len(want.get(name, [])), "the count of a collection is wrong", collection=repr(name), got=cs.count(name), expected=len(want.get(name, [])), **detail)

    def sizes():
        ctx.check(len(cs) == len(want), "there's the wrong number of collections", got=len(cs), expected=len(want), **detail)
        for name in VALUES + ["missing"]:
            ctx.check((name in cs) == (name in want), "membership is wrong", collection=repr(name), **detail)

    def everything():
        got = {}
        for name, record in cs.items():
            got.setdefault(name, []).append(record)
        ctx.check(set(got) == set(want), "items has other collections", got=str(list(got)), expected=str(names), **detail)
        for name in want:
            ctx.check(rows(got.get(name, [])) == rows(want[name]), "items has other records", collection=repr(name), got=str(got.get(name))[:600], expected=str(want[name])[:600], **detail)

    def apply():
        got = cs.apply(list)
        ctx.check(set(got) == set(want) and all(rows(got[k]) == rows(want[k]) for k in want), "apply gave the function other records", got=str(got)[:800], expected=str(want)[:800], **detail)
        got = cs.apply(len)
        ctx.check(got == {k: len(v) for k, v in want.items()}, "apply(len) isn't the counts", got=str(got), **detail)

    def aggregate():
        field = rng.choice(["v", "w", "a b", "id", "never"])
        got = cs.aggregate(field, list)
        expected = {k: [m[field] for m in v if m.get(field) is not None] for k, v in want.items()}
        ctx.check(set(got) == set(want) and all(typed(got[k]) == typed(expected[k]) for k in want), "aggregate gave the function other values", field=field, got=str(got)[:800], expected=str(expected)[:800], **detail)
        got = cs.aggregate(field, len)
        ctx.check(got == {k: len(v) for k, v in expected.items()}, "aggregate returned something else than the function", field=field, got=str(got), **detail)

    def single():
        name = rng.choice(names + ["missing"])
        members = want.get(name, [])
        sub = cs[name]
        ctx.check(len(sub) == len(members), "a collection has the wrong size", collection=repr(name), got=len(sub), expected=len(members), **detail)
        field = rng.choice(["v", "w", "a b", "id", "never"])
        expected = [m[field] for m in members if field in m]
        ctx.check(typed(sub[field]) == typed(expected), "a column of a collection is wrong", collection=repr(name), field=field, got=str(sub[field])[:500], expected=str(expected)[:500], **detail)
        got = sub.get(field)
        ctx.check(typed(got) == typed(expected) if expected else got is None, "get of a column of a collection is wrong", collection=repr(name), field=field, got=str(got)[:500], **detail)
        fields = rng.sample(["v", "w", "a b", "id", "never"], rng.randint(2, 4))
        got = sub[tuple(fields)]
        ctx.check(rows(got) == rows({f: m.get(f) for f in fields} for m in members), "some columns of a collection are wrong", collection=repr(name), fields=fields, got=str(got)[:500], **detail)

    def many():
        asked = rng.sample(names + ["missing", "nothing"], rng.randint(0, min(len(names) + 2, 4)))
        asked += asked[:1] if rng.random() < 0.2 else []
        some = cs[tuple(asked) if rng.random() < 0.5 else list(asked)]
        kept = {k: want[k] for k in names if k in asked}
        ctx.check(len(some) == len(kept) and some.count() == {k: len(v) for k, v in kept.items()}, "a selection holds other collections", asked=repr(asked), got=str(some.count()), **detail)
        ctx.check(all(rows(v) == rows(kept[k]) for k, v in some.apply(list).items()), "a selection holds other records", asked=repr(asked), **detail)

    asked = [all_counts, one_count, sizes, everything, apply, aggregate, single, many, single, many, rng.choice([everything, apply, all_counts])]
    rng.shuffle(asked)
    for question in asked:
        ctx.guard(question.__name__, question, detail=detail)
        ctx.count("questions")
    total = sum(len(v) for v in want.values())
    ctx.check(typed(records) == typed(original), "the records were changed", after=str(records[:6])[:600], **detail)
    ctx.count("records", len(records))
    if dedupe:
        ctx.count("repeats removed", len(records) - total)
    ctx.count("collections", len(want))
    ctx.seen((typed(original), column, dedupe, how), nontrivial=len(want) > 1)


def run(ctx):
    ctx.minimum = ctx.n(200, 4000)
    ctx.deadline(10, 150)
    for case in range(ctx.n(1500, 40000)):
        if not ctx.more():
            break
        one(ctx, case)
    ctx.require("collections", 400)
    ctx.require("repeats removed", 200)
    ctx.require("questions", 2000)
