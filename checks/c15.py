"""
One case is a DNF filter (none, empty, a tuple, tuples ANDed, lists ORed) over every operator
in any letter case, and a list of records with present, missing, None, mixed type and
incomparable values. The oracle evaluates the filter by its own rules. Judged on DnfFilters
(called, and as filter_dictset), DictSet.filter (persisted and not) and Reader filters.
Non-trivial when some records are kept and some aren't; distinct by filter.
"""

import datetime
import json
import math
import re

from checks.c14 import like_match
from vf import gen
from vf.codec import typed
from vf.store import Store, adapters

ASSUMPTIONS = [
    "booleans are numbers when compared with numbers, as they are in Python",
]

WORDS = ["abc", "Abc", "potter", "Harry Potter", "", "100%", "a_b", "ab", "7", "true", "null", "日本語", "new\nline", "(x)", "a.b"]
NUMBERS = [0, 1, -3, 7, 12, 3.5, -0.25, 7.0, 2**53, 1e300, math.nan]
DATES = [datetime.datetime(2021, 1, 5), datetime.datetime(1999, 12, 31, 23, 59)]
PATTERNS = ["%", "a%", "%b", "%POTTER%", "a_b", "___", "", "%\n%", "7%", "100%", "(%)", "t__e", "%.%"]
REGEXES = ["a", "^a", "b$", r"^\d+$", "^$", "a|7", "(?i)POTTER", r"\(", "."]
FIELDS = ["a", "b", "c", "with space", "gone"]
OPS = ["=", "==", "is", "!=", "<>", "<", ">", "<=", ">=", "like", "matches", "~", "in", "!in", "not in", "contains", "!contains"]


def value(rng, jsonable=True, depth=1):
    k = rng.random()
    if k < 0.1:
        return None
    if k < 0.45:
        return rng.choice(WORDS)
    if k < 0.8:
        v = rng.choice(NUMBERS) if rng.random() < 0.6 else rng.randint(-5, 15)
        return 0 if jsonable and v != v else v
    if k < 0.87:
        return rng.random() < 0.5
    if k < 0.9 and not jsonable:
        return rng.choice(DATES)
    if depth:
        return [value(rng, jsonable, 0) for _ in range(rng.randint(0, 4))]
    return "x"


def literal(rng):
    v = value(rng, False, 0)
    return "abc" if v is None and rng.random() < 0.7 else v


def predicate(rng):
    field, op = rng.choice(FIELDS), rng.choice(OPS)
    if op == "like":
        operand = rng.choice(PATTERNS)
    elif op in ("matches", "~"):
        operand = rng.choice(REGEXES)
    elif op in ("in", "!in", "not in"):
        operand = rng.choice([list, tuple, set])(literal(rng) for _ in range(rng.randint(0, 5) if rng.random() < 0.8 else rng.randint(6, 40)))
        if isinstance(operand, list) and rng.random() < 0.2:
            operand.append(value(rng, False))
    elif op == "is":
        operand = rng.choice([None, True, False, "abc"])
    else:
        operand = literal(rng)
    return (field, "".join(rng.choice([c, c, c.upper()]) for c in op), operand)


def number(v):
    return isinstance(v, (int, float))


def matches(p, record):
    field, op, operand = p
    op = op.lower()
    v = record.get(field)
    if v is None:
        return False
    if op in ("=", "==", "is"):
        return v == operand
    if op in ("!=", "<>"):
        return not v == operand
    if op in ("<", ">", "<=", ">="):
        if not ((number(v) and number(operand)) or (isinstance(v, str) and isinstance(operand, str)) or (isinstance(v, datetime.datetime) and isinstance(operand, datetime.datetime))):
            return False
        return {"<": v < operand, ">": v > operand, "<=": v <= operand, ">=": v >= operand}[op]
    if op == "like":
        return like_match(v, operand)
    if op in ("matches", "~"):
        return isinstance(v, str) and re.search(operand, v) is not None
    if op in ("in", "!in", "not in"):
        if isinstance(v, list) and isinstance(operand, set):
            return False  # can't be compared
        found = any(v is x or v == x for x in operand)
        return found if op == "in" else not found
    if isinstance(v, str):
        if not isinstance(operand, str):
            return False
        found = operand in v
    elif isinstance(v, list):
        found = any(operand is x or operand == x for x in v)
    else:
        return False
    return found if op == "contains" else not found


def holds(f, record):
    if f is None:
        return True
    if isinstance(f, tuple) and f:
        return matches(f, record)
    if len(f) == 0:
        return True
    if isinstance(f[0], tuple):
        return all(matches(p, record) for p in f)
    return any(all(matches(p, record) for p in part) for part in f)


def make_filter(rng):
    k = rng.random()
    if k < 0.03:
        return rng.choice([None, [], ()])
    if k < 0.35:
        return predicate(rng)
    if k < 0.65:
        return [predicate(rng) for _ in range(rng.randint(1, 3))]
    if k < 0.95:
        return [[predicate(rng) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]
    # many alternatives, of which few hold
    return [[predicate(rng) for _ in range(rng.randint(3, 12))] for _ in range(rng.randint(4, 25))]


def one(ctx, case):
    from mabel import DictSet, Reader
    from mabel.data.internals.dictset import STORAGE_CLASS
    from mabel.data.internals.dnf_filters import DnfFilters

    rng = ctx.rng
    jsonable = case % 3 == 0
    records = []
    for i in range(rng.choice([3, 12, 12, 30])):
        record = {"_id": i}
        for field in FIELDS[:-1]:
            if rng.random() < 0.85:
                record[field] = value(rng, jsonable)
        records.append(record)
    f = make_filter(rng)
    detail = dict(filter=repr(f))
    before, filter_before = [typed(r) for r in records], repr(f)
    expected = [holds(f, r) for r in records]
    want = [typed(r) for r, keep in zip(records, expected) if keep]

    def judge(what, func):
        ok, got = ctx.guard(what, func, detail=detail)
        if ok and [typed(r) for r in got] != want:
            wrong = [(str(r), k) for r, k in zip(records, expected) if (typed(r) in [typed(g) for g in got]) != k]
            ctx.violation(f"{what} kept the wrong records, or in the wrong order", first_wrong=wrong[:1], expected=len(want), got=len(got), **detail)
            return False
        return ok

    compiled = DnfFilters(f)
    if not judge("DnfFilters", lambda: [r for r in records if compiled(r) or f is None]):
        return
    if not judge("filter_dictset", lambda: list(compiled.filter_dictset(iter(records)))):
        return
    if f is not None:
        storage = rng.choice(list(STORAGE_CLASS)) if jsonable else rng.choice([STORAGE_CLASS.NO_PERSISTANCE, STORAGE_CLASS.MEMORY])
        if not judge(f"DictSet.filter {storage.name}", lambda: [r if isinstance(r, dict) else r.as_dict() for r in DictSet(records, storage_class=storage).filter(f)]):
            return
        ctx.count(f"storage {storage.name}")
    if jsonable:
        store = Store()
        lines = [json.dumps(r).encode() for r in records]
        at = rng.randint(0, len(lines))
        for name, part in (("a", lines[:at]), ("b", lines[at:])):
            store.put(f"ds/c15/{name}.jsonl", b"\n".join(part))
        if not judge("a Reader's filter", lambda: [dict(r) if isinstance(r, dict) else r.as_dict() for r in Reader(dataset="ds/c15", partitions=None, inner_reader=adapters(store)[1], filters=f)]):
            return
        ctx.count("reader_filters")
    ctx.check([typed(r) for r in records] == before, "filtering changed the records", **detail)
    ctx.check(repr(f) == filter_before, "filtering changed the filter", now=repr(f), **detail)
    parts = [f] if isinstance(f, tuple) and f else [p for part in (f or []) for p in ([part] if isinstance(part, tuple) else part)]
    for p in parts:
        ctx.count("op " + p[1].lower())
    ctx.count("answers", len(records))
    ctx.seen(repr(f), nontrivial=0 < sum(expected) < len(expected), sample=dict(kept=sum(expected), of=len(expected), **detail))


def run(ctx):
    ctx.minimum = 300
    ctx.deadline(14, 420)
    for case in range(ctx.n(3000, 80000)):
        if not ctx.more():
            break
        one(ctx, case)
    ctx.require("reader_filters", 200)
    for op in OPS:
        ctx.require("op " + op, 50)
