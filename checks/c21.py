"""
One case is a list of records (missing and None values, values which look the same and aren't,
repeats), one or more grouping columns and a set of aggregates, asked for through aggregate or
its short forms. The oracle is grouping by values and types, with exact arithmetic over each
group's values which aren't None. Each case is also run over the records in another order, with
a subset of the aggregates, from another storage class and again unchanged; groups() and the
sum of the counts are compared. Non-trivial when there were two groups or more; distinct by
records, columns and aggregates.
"""

import decimal
from fractions import Fraction

from vf.codec import typed

ASSUMPTIONS = [
    "a GroupBy is used once (it may hold a generator)",
    "MIN, MAX, SUM and AVG are asked of columns whose values can be compared or summed",
    "grouping values aren't dictionaries; a missing value is a None",
    "integer sums are below 28 digits and compared exactly, others within 24 digits of the sizes involved",
]

KEYS = [None, "a", "b", "A", "", "None", "a b", "('a',)", "1", 1, 1.0, True, False, 0, -1, "True", 2**40, 0.1, ["a"], [], "é", "a,b", "', '", "a'", 'a"', "'a', 'b'"]


def dataset(rng):
    size = rng.choice([0, 1, 2, 5, 12, 12, 40, 150])
    few = rng.sample(KEYS, rng.randint(1, 6))
    numbers = rng.choice([
        lambda: rng.randint(-9, 9),
        lambda: rng.randint(-(2**62), 2**62),
        lambda: rng.uniform(-100, 100),
        lambda: rng.choice([0.1, 0.2, 0.3, 1e-9, 1e9]),
        lambda: rng.choice([0, 0, 0.0, -1, 1]),
    ])
    out = []
    for i in range(size):
        r = {"id": i}
        for k in ("g", "h", "k v"):
            if rng.random() < 0.9:
                r[k] = rng.choice(few)
        for k, gap in (("n", 0.1), ("m", 0.5), ("rare", 0.9)):
            if rng.random() >= gap:
                r[k] = None if rng.random() < 0.15 else numbers()
        if rng.random() < 0.8:
            r["t"] = rng.choice([None, "a", "B", "b", "", "zz", "é"])
        if rng.random() < 0.03:
            # a record of nothing is still a record
            r = rng.choice([{}, dict.fromkeys(r)])
        out.append(r)
    return out


def aggregate_set(rng):
    from_numbers = [(f, c) for f in ("SUM", "MIN", "MAX", "AVG", "COUNT") for c in ("n", "m", "rare", "id")]
    others = [("COUNT", "*"), ("COUNT", "t"), ("COUNT", "never"), ("MIN", "t"), ("MAX", "t"), ("COUNT", "g"), ("MAX", "never"), ("AVG", "never"), ("SUM", "never")]
    picked = [rng.choice(from_numbers + others) for _ in range(rng.choice([1, 1, 2, 3, 5, 9]))]
    if rng.random() < 0.3:
        picked.append(rng.choice(picked))
    return picked


def model(records, columns, aggregates):
    groups = {}
    for r in records:
        groups.setdefault(tuple(typed(r.get(c)) for c in columns), []).append(r)
    out = {}
    for key, members in groups.items():
        row = {}
        for f, c in aggregates:
            values = ["*"] * len(members) if c == "*" else [r[c] for r in members if r.get(c) is not None]
            if f == "COUNT":
                row[f"{f}({c})"] = len(values)
            elif not values:
                row[f"{f}({c})"] = None
            elif f in ("MIN", "MAX"):
                row[f"{f}({c})"] = (min if f == "MIN" else max)(values)
            else:
                total = sum(Fraction(v) for v in values)
                scale = sum(abs(Fraction(v)) for v in values)
                whole = all(isinstance(v, int) for v in values) and f == "SUM"
                # sums are of 28 digits
                row[f"{f}({c})"] = (total if f == "SUM" else total / len(values), 0 if whole else scale * len(values) / 10**(24 if len(values) > 1 else 15))
        out[key] = row
    return out


def fits(want, got):
    if isinstance(want, tuple):
        if isinstance(got, bool) or not isinstance(got, (int, float, decimal.Decimal)):
            return False
        return abs(Fraction(got) - want[0]) <= want[1]
    if want is None or got is None:
        return want is got
    return want == got and isinstance(want, str) == isinstance(got, str)


def judge(ctx, records, columns, aggregates, rows, how, **detail):
    want = model(records, columns, aggregates)
    detail = dict(columns=columns, aggregates=str(aggregates), how=how, size=len(records), **detail)
    seen = set()
    for row in rows:
        missing = [c for c in columns if c not in row]
        if not ctx.check(not missing, "a row doesn't hold its group's values", row=str(row), **detail):
            return
        key = tuple(typed(row[c]) for c in columns)
        if not ctx.check(key in want, "a row is for a group which isn't in the data", row=str(row), **detail):
            return
        if not ctx.check(key not in seen, "a group has two rows", row=str(row), **detail):
            return
        seen.add(key)
        names = {f"{f}({c})" for f, c in aggregates} | set(columns)
        if not ctx.check(set(row) == names, "a row holds the wrong columns", row=str(row), expected=sorted(names), **detail):
            return
        for name, value in want[key].items():
            if not ctx.check(fits(value, row[name]), "an aggregate is wrong", aggregate=name, group=str(key), got=repr(row[name]),
                             expected=repr(float(value[0]) if isinstance(value, tuple) else value), **detail):
                return
    ctx.check(len(seen) == len(want), "a group is missing", expected=len(want), got=len(seen), **detail)


def bagged(rows):
    return sorted(repr(sorted((k, repr(v)) for k, v in r.items())) for r in rows)


def one(ctx, case):
    from mabel import DictSet
    from mabel.data.internals.dictset import STORAGE_CLASS

    rng = ctx.rng
    records = dataset(rng)
    columns = rng.choice([["g"], ["g"], ["g", "h"], ["h", "g"], ["k v"], ["g", "h", "k v"], ["never"], ["t"], ["n"], ["id"], ["g", "t"]])
    aggregates = aggregate_set(rng)

    def grouped(how, rs):
        if how == "list":
            ds = DictSet(rs)
        elif how == "generator":
            ds = DictSet(r for r in rs)
        else:
            ds = DictSet(iter(rs), storage_class=STORAGE_CLASS[how])
        given = columns[0] if len(columns) == 1 and rng.random() < 0.5 else rng.choice([list, tuple])(columns)
        return ds.group_by(given)

    hows = ["list", "generator", "MEMORY", "DISK", "COMPRESSED_MEMORY"]
    how = rng.choice(hows)
    given = aggregates[0] if len(aggregates) == 1 and rng.random() < 0.5 else list(aggregates)
    detail = dict(data=str(records[:5])[:700])
    ok, rows = ctx.guard("aggregate", lambda: list(grouped(how, records).aggregate(given)), detail=dict(aggregates=str(given), columns=columns, **detail))
    if not ok:
        return
    judge(ctx, records, columns, aggregates, rows, how, **detail)
    ctx.count("groups", len(rows))
    counts = list(grouped(how, records).count())
    judge(ctx, records, columns, [("COUNT", "*")], counts, how + ".count", **detail)
    ctx.check(sum(r["COUNT(*)"] for r in counts) == len(records), "the counts don't add up to the records", columns=columns, **detail)
    ok, again = ctx.guard("aggregate", lambda: list(grouped(how, records).aggregate(given)))
    if ok:
        ctx.check(repr(again) == repr(rows), "the rows are different the second time", columns=columns, **detail)

    shuffled = records[:]
    rng.shuffle(shuffled)
    other = rng.choice(hows)
    ok, rows = ctx.guard("aggregate", lambda: list(grouped(other, shuffled).aggregate(list(aggregates))))
    if ok:
        judge(ctx, records, columns, aggregates, rows, other + " shuffled", **detail)
    subset = rng.sample(aggregates, rng.randint(1, len(aggregates)))
    ok, rows = ctx.guard("aggregate", lambda: list(grouped(how, records).aggregate(subset)))
    if ok:
        judge(ctx, records, columns, subset, rows, how + " subset", **detail)
        ctx.count("subsets")

    short = rng.choice(["max", "min", "sum", "average"])
    wanted = rng.choice([["n"], ["n", "m"], ["rare"], ["id", "n"]])
    ok, rows = ctx.guard(short, lambda: list(getattr(grouped(how, records), short)(wanted[0] if len(wanted) == 1 else rng.choice([list, tuple, set])(wanted))))
    if ok:
        f = {"average": "AVG"}.get(short, short.upper())
        judge(ctx, records, columns, [(f, c) for c in wanted], rows, how + "." + short, **detail)
        ctx.count("short form " + short)
    ok, rows = ctx.guard("groups", lambda: list(grouped(how, records).groups()))
    if ok:
        judge(ctx, records, columns, [], rows, how + ".groups", **detail)
    ctx.seen(([typed(r) for r in records], columns, aggregates), nontrivial=len(model(records, columns, [])) > 1,
             sample=dict(size=len(records), columns=columns, aggregates=str(aggregates)))


def many(ctx):
    """so many groups that identities of too few bits would be the same"""
    from mabel import DictSet

    rng = ctx.rng
    size = ctx.n(120_000, 300_000)
    spread = rng.randint(1, 10**6)
    source = ({"g": i * spread, "v": 1} for i in range(size))
    ok, sums = ctx.guard("aggregate many groups", lambda: [(r["g"], r["SUM(v)"]) for r in DictSet(source).group_by("g").aggregate([("SUM", "v")])])
    if ok:
        ctx.check(len(sums) == size and all(v == 1 for _, v in sums) and {g for g, _ in sums} == {i * spread for i in range(size)},
                  "many groups were put together or lost", size=size, got=len(sums), spread=spread)
        ctx.count("many_groups", size)
        ctx.seen(("many", size, spread))


def run(ctx):
    ctx.minimum = ctx.n(150, 2000)
    ctx.deadline(14, 240)
    many(ctx)
    for case in range(ctx.n(700, 20000)):
        if not ctx.more():
            break
        one(ctx, case)
    ctx.require("groups", 300)
    ctx.require("subsets", 50)
