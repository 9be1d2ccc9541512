"""
One case is a column of numbers or text, spread over records some of which don't have it, in
two orders and held in any storage class (or a generator): every aggregate is compared to
exact rational arithmetic, and to itself over the other order. The other half of the cases
hash a DictSet: the hash must be the same for the records and keys (nested ones too) in
another order and any storage class, and differ from that of records with one thing changed
(a value, its type, a key, a record more or less, values swapped between records). Non-trivial
when there were at least two records; distinct by records, operation and storage.
"""

import datetime
import decimal
import math
from fractions import Fraction

from vf import gen, setops
from vf.codec import bag, typed

ASSUMPTIONS = [
    "an aggregated column holds comparable values wherever it is present, and one at least (two for the variance)",
    "records to hash hold values orjson can serialise without loss (integers to 64 bits, finite floats)",
    "floating point answers are compared within a relative error of 1e-9 of the sizes involved",
]

HELD = ["list", "tuple", "generator", "MEMORY", "DISK", "COMPRESSED_MEMORY"]


def make(how, records):
    from mabel import DictSet
    from mabel.data.internals.dictset import STORAGE_CLASS

    if how == "list":
        return DictSet(records)
    if how == "tuple":
        return DictSet(tuple(records))
    if how == "generator":
        return DictSet(r for r in records)
    return DictSet(iter(records), storage_class=STORAGE_CLASS[how])


def column(rng):
    kind = rng.choice(["int", "int", "big", "float", "close", "far", "mixed", "text", "bool", "same", "negative"])
    size = rng.choice([1, 2, 3, 5, 20, 20, 90])
    pick = {
        "int": lambda: rng.randint(-100, 100),
        "big": lambda: rng.randint(-(2**62), 2**62),
        "float": lambda: rng.choice([rng.uniform(-1e3, 1e3), rng.gauss(0, 1e-6), rng.uniform(0, 1) * 10 ** rng.randint(-9, 9)]),
        # a naive sum of squares loses everything here
        "close": lambda: 1e9 + rng.randint(0, 9) / 8,
        "far": lambda: 2**60 + rng.randint(0, 99),
        "mixed": lambda: rng.choice([rng.randint(-9, 9), rng.uniform(-9, 9)]),
        "text": lambda: gen.text(rng) if hasattr(gen, "text") else rng.choice(setops.TEXTS),
        "bool": lambda: rng.random() < 0.5,
        "same": lambda: 7,
        "negative": lambda: -rng.randint(1, 1000),
    }[kind]
    return kind, [pick() for _ in range(size)]


def near(a, b, scale):
    if isinstance(a, bool) or not isinstance(a, (int, float, Fraction, decimal.Decimal)):
        return False
    if isinstance(a, float) and not math.isfinite(a):
        return False
    return abs(Fraction(a) - b) <= Fraction(scale) * Fraction(1, 10**9)


def aggregates(ctx, case):
    rng = ctx.rng
    kind, values = column(rng)
    name = rng.choice(["n", "a.b", "with space", "*", "value"])
    records = [dict([("id", i), (name, v)][:: rng.choice([1, -1])]) for i, v in enumerate(values)]
    for _ in range(rng.choice([0, 0, 1, 4])):
        records.insert(rng.randint(0, len(records)), rng.choice([{"id": 5}, {}, {"other": 10**6}]))
    shuffled = records[:]
    rng.shuffle(shuffled)
    how = rng.choice(HELD)
    other = rng.choice(HELD)
    detail = dict(kind=kind, held=how, values=str(values)[:400], column=name)
    ask = lambda h, rs, method: getattr(make(h, rs), method)(name)  # noqa

    methods = ["min", "max", "min_max"]
    if kind not in ("text", "bool"):
        methods += ["sum", "mean", "variance", "standard_deviation"]
    if len(values) < 2:
        methods = [m for m in methods if m not in ("variance", "standard_deviation")]
    exact = [Fraction(v) for v in values] if kind != "text" else []
    for method in methods:
        ok, got = ctx.guard(method, ask, how, records, method, detail=detail)
        if not ok:
            continue
        if method == "min":
            good = got == min(values)
        elif method == "max":
            good = got == max(values)
        elif method == "min_max":
            good = tuple(got) == (min(values), max(values))
        else:
            total, count = sum(exact), len(exact)
            size = max(abs(v) for v in exact)
            if method == "sum":
                good = near(got, total, size * count)
                if all(isinstance(v, int) for v in values):
                    good = good and got == total
            elif method == "mean":
                good = near(got, total / count, size)
                if all(isinstance(v, int) for v in values) and (total / count).denominator == 1 and abs(total / count) < 2**53:
                    good = good and got == total / count
            else:
                variance = sum((v - total / count) ** 2 for v in exact) / (count - 1)
                if method == "variance":
                    good = near(got, variance, max(variance, 1e-300))
                else:
                    good = near(got, Fraction(math.sqrt(variance)), max(math.sqrt(variance), 1e-300))
        ctx.check(good, "an aggregate is wrong", method=method, got=repr(got), **detail)
        ok, again = ctx.guard(method, ask, other, shuffled, method, detail=detail)
        if ok and method in ("min", "max", "min_max"):
            ctx.check(again == got, "an aggregate depends on the order or the storage", method=method, got=repr(got), again=repr(again), other=other, **detail)
        elif ok:
            ctx.check(near(again, Fraction(got), max([abs(v) for v in exact]) ** (2 if method == "variance" else 1) * len(exact)),
                      "an aggregate depends on the order or the storage", method=method, got=repr(got), again=repr(again), other=other, **detail)
        ctx.count(method)
    for h in (how, other):
        ok, n = ctx.guard("count", lambda: make(h, records).count(), detail=detail)
        if ok:
            ctx.check(n == (-1 if h == "generator" else len(records)), "count is wrong", got=n, expected=len(records), held=h)
    ctx.seen(("aggregate", how, name, [typed(v) for v in values], len(records)), nontrivial=len(values) > 1, sample=detail)


def hashable(rng, i):
    r = setops.record(rng, i)
    if rng.random() < 0.4:
        r["deep"] = {"x": rng.randint(0, 3), "y": {"p": 1, "q": [1, {"m": 1, "n": None}]}, "z": rng.choice(["a", 1.5, None])}
    if rng.random() < 0.2:
        r["when"] = datetime.datetime(2021, 1, rng.randint(1, 28), 5)
    r.pop("late", None)
    return {k: v for k, v in r.items()}


def reorder(rng, value):
    if isinstance(value, dict):
        keys = list(value)
        rng.shuffle(keys)
        return {k: reorder(rng, value[k]) for k in keys}
    if isinstance(value, list):
        return [reorder(rng, v) for v in value]
    return value


def change(rng, records):
    """-> a description and records which differ in one thing"""
    out = [dict(r) for r in records]
    at = rng.randrange(len(out)) if out else 0
    how = rng.choice(["value", "type", "key", "more", "more empty", "less", "swap", "duplicate", "null", "duplicates"]) if out else "more"
    r = out[at] if out else {}
    if how == "value":
        r["id"] = 10**6 + rng.randint(0, 9)
    elif how == "type":
        r["id"] = str(r.get("id"))
    elif how == "key":
        r["Id"] = r.pop("id", 1)
    elif how == "more":
        out.insert(at, {"id": 10**7})
    elif how == "more empty":
        out.insert(at, {})
    elif how == "less":
        out.pop(at)
    elif how == "swap":
        other = out[rng.randrange(len(out))]
        r["t"], other["t"] = other.get("t", "gone"), r.get("t", "away")
    elif how == "duplicate":
        out.insert(at, dict(r))
    elif how == "duplicates":
        out += [dict(r), dict(r)]
    else:
        r["new"] = None
    return how, out


def hashes(ctx, case):
    rng = ctx.rng
    records = [hashable(rng, i) for i in range(rng.choice([0, 1, 2, 3, 10, 40]))]
    if records and rng.random() < 0.3:
        records.append(dict(rng.choice(records)))
    held = [h for h in HELD]
    if any("when" in r for r in records):
        held = ["list", "tuple", "generator", "MEMORY"]
    how = rng.choice(held)
    detail = dict(held=how, records=str(records[:4])[:600])
    ok, base = ctx.guard("hash", lambda: hash(make(how, records)), detail=detail)
    if not ok:
        return
    same = [reorder(rng, r) for r in records]
    rng.shuffle(same)
    for h in {rng.choice(held), rng.choice(held)}:
        ok, again = ctx.guard("hash", lambda: hash(make(h, same)), detail=detail)
        if ok:
            ctx.check(again == base, "the hash depends on the order of records or keys, or the storage", other=h, reordered=str(same[:4])[:600], **detail)
            ctx.count("hash same")
    for _ in range(3):
        what, altered = change(rng, records)
        before, after = bag(records), bag(altered)
        if before == after:
            continue
        ok, different = ctx.guard("hash", lambda: hash(make(rng.choice([h for h in held if h in ("list", "generator", "MEMORY")]), altered)), detail=detail)
        if ok:
            ctx.check(different != base, "different records have the same hash",
                      changed=what, altered=str(altered[:4])[:600], **detail)
            ctx.count("hash differs after " + what)
    ctx.seen(("hash", how, [typed(r) for r in records]), nontrivial=len(records) > 1, sample=detail)


def run(ctx):
    ctx.minimum = ctx.n(500, 5000)
    ctx.deadline(14, 240)
    for case in range(ctx.n(3000, 60000)):
        if not ctx.more():
            break
        (aggregates if case % 2 else hashes)(ctx, case)
    for name in ("min", "max", "min_max", "sum", "mean", "variance", "standard_deviation", "hash same"):
        ctx.require(name, 50)
    for what in ("value", "type", "key", "more", "less", "swap", "duplicate", "null"):
        ctx.require("hash differs after " + what, 10)
