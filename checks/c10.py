"""
One case is a dataset and a schedule of stops and resumes: read some records, take the
cursor (the object, a dictionary or its JSON text), throw the Reader away, resume with a new
one, at every position of small datasets and at random positions of larger ones, with
filters and selects, with later-sorting blobs appended between stops. The concatenation must
be exactly the uninterrupted read. Non-trivial when there was at least one stop; distinct by
dataset shape and stops.
"""

import json

import orjson

from vf import gen
from vf.store import Store, adapters

ASSUMPTIONS = [
    "blobs added between stops sort after the blobs already there",
    "no cursor at all (None, an empty dictionary, empty text) is not a malformed cursor",
]


def build(rng, empties=True, many=None):
    store = Store()
    uid = 0
    shape = []
    for b in range(many or rng.choice([1, 2, 3, 7, 8, 9, 17])):
        uid = add_blob(rng, store, b, uid, shape, empties)
    return store, shape, uid


def add_blob(rng, store, b, uid, shape, empties=True, size=None):
    size = size or rng.choice([0, 1, 1, 2, 5] if empties else [1, 2, 5])
    rows = []
    for _ in range(size):
        rows.append({"_id": uid, "k": rng.randint(0, 3), "s": rng.choice(["x", "y"])})
        uid += 1
    form = rng.choice(["jsonl", "jsonl", "zstd", "csv-like"])
    data = b"".join(json.dumps(r).encode() + b"\n" for r in rows)
    if form == "zstd":
        import zstandard

        data = zstandard.compress(data)
    store.put(f"ds/cur/year_2021/month_01/day_01/{b:04d}.{'zstd' if form == 'zstd' else 'jsonl'}", data)
    shape.append(size)
    return uid


def reader(store, cursor=None, **kwargs):
    from mabel import Reader

    if cursor is not None:
        kwargs["cursor"] = cursor
    return Reader(dataset="ds/cur", start_date="2021-01-01", end_date="2021-01-01", inner_reader=adapters(store)[1], **kwargs)


def take_cursor(rng, source):
    cursor = source.cursor
    if cursor is None:
        return None, "none"
    how = rng.choice(["dict", "text", "json", "repr", "items"])
    if isinstance(cursor, (dict, str)):
        # the cursor we gave it, nothing has been read since
        return cursor, "given"
    if how == "dict":
        return cursor.get(), how
    if how == "text":
        return str(cursor), how
    if how == "json":
        return orjson.dumps(cursor.get()).decode(), how
    if how == "repr":
        return repr(cursor), how
    return {k: cursor[k] for k in ("map", "partition", "location")}, how


VARIANTS = [
    ({}, lambda r: r, lambda r: True),
    ({"filters": "k > 1"}, lambda r: r, lambda r: r["k"] > 1),
    ({"filters": [("k", "==", 2)]}, lambda r: r, lambda r: r["k"] == 2),
    ({"filters": "s = 'x' AND k < 2"}, lambda r: r, lambda r: r["s"] == "x" and r["k"] < 2),
    ({"select": "_id"}, lambda r: {"_id": r["_id"]}, lambda r: True),
    ({"select": "_id, k", "filters": "k = 3"}, lambda r: {"_id": r["_id"], "k": r["k"]}, lambda r: r["k"] == 3),
    ({"filters": "k > 100"}, lambda r: r, lambda r: False),
]


def plain(record):
    return record.as_dict() if hasattr(record, "as_dict") else dict(record)


def one(ctx, case):
    rng = ctx.rng
    # the map of what's been read is longer than a word, or a page
    many = rng.choice([65, 130, 300]) if case % 40 == 0 else None
    store, shape, uid = build(rng, many=many)
    large = case % 40 == 20
    if large:
        uid = add_blob(rng, store, len(shape), uid, shape, size=rng.choice([1200, 3000, 5500]))
        uid = add_blob(rng, store, len(shape), uid, shape)
    kwargs, _, _ = rng.choice(VARIANTS if not many and not large else VARIANTS[:1])
    uninterrupted = [plain(r) for r in reader(store, **kwargs)]
    total = len(uninterrupted)
    if many:
        schedules = [[total - 1], [total * 3 // 4, total // 8], [total // 2]]
        ctx.count("many_blobs")
    elif large:
        schedules = [[total - 8], [total // 2, total // 3], [rng.randint(1001, total)]]
        ctx.count("large_blobs")
    elif case % 3 == 0 and total <= 30:
        # every position, one stop
        schedules = [[i] for i in range(total + 1)]
    else:
        schedules = []
        for _ in range(3):
            left, stops = total, []
            while left > 0 and len(stops) < 12:
                n = rng.choice([0, 1, 1, 2, rng.randint(0, left), left])
                stops.append(min(n, left))
                left -= stops[-1]
            schedules.append(stops)
    for stops in schedules:
        got, cursor, hows = [], None, []
        detail = dict(shape=shape, kwargs=kwargs, stops=stops)

        def go():
            nonlocal cursor
            for n in stops:
                source = reader(store, cursor, **kwargs)
                iterator = iter(source)
                for _ in range(n):
                    got.append(plain(next(iterator)))
                    ctx.count("records_before_stops")
                cursor, how = take_cursor(rng, source)
                hows.append(how)
            source = reader(store, cursor, **kwargs)
            rest = [plain(r) for r in source]
            got.extend(rest)
            # and once everything has been read there's nothing left
            final, how = take_cursor(rng, source)
            if final is not None and how != "given":
                again = list(reader(store, final, **kwargs))
                ctx.check(again == [], "resuming after the last record read records again", again=len(again), cursor=final, **detail)

        ok, _ = ctx.guard("stop and resume", go, detail=detail)
        if not ok:
            return
        if got != uninterrupted:
            ids, want = [r.get("_id") for r in got], [r.get("_id") for r in uninterrupted]
            ctx.violation("stopping and resuming didn't read exactly the records of an uninterrupted read", got=ids[:80], want=want[:80], cursor=cursor, hows=hows,
                          missing=[i for i in want if i not in ids][:10], repeated=len(ids) - len(set(ids)), **detail)
            return
        ctx.count("stops", len(stops))
        ctx.seen(detail, nontrivial=len(stops) > 0 and total > 0, sample=detail)


def appended(ctx, case):
    """new blobs arrive between stops"""
    rng = ctx.rng
    store, shape, uid = build(rng, empties=rng.random() < 0.5)
    kwargs, change, keep = rng.choice(VARIANTS[:6])
    got, cursor, history = [], None, []
    sources = []

    def go():
        nonlocal cursor, uid
        for _ in range(rng.randint(1, 8)):
            source = reader(store, cursor, **kwargs)
            n = rng.choice([0, 1, 3, 8, 1000])
            taken = 0
            for record in source:
                got.append(plain(record))
                taken += 1
                if taken >= n > 0:
                    break
            # reading nothing before the stop is allowed when we don't start
            cursor = take_cursor(rng, source)[0]
            added = rng.choice([0, 1, 2, 8])
            for _ in range(added):
                uid = add_blob(rng, store, len(shape), uid, shape)
            history.append((n, added))
        got.extend(plain(r) for r in reader(store, cursor, **kwargs))

    detail = dict(shape=shape, kwargs=kwargs)
    ok, _ = ctx.guard("resume with more blobs", go, detail=detail)
    if not ok:
        return
    want = [plain(r) for r in reader(store, **kwargs)]
    ctx.check(got == want, "records were lost or repeated when blobs were added between stops", history=history, got=[r["_id"] for r in got][:80],
              want=[r["_id"] for r in want][:80], **detail)
    ctx.count("appended_cases")
    ctx.seen(("appended", shape, history, kwargs), sample={"shape": shape, "stops_and_added": history})


def malformed(ctx):
    from mabel import Reader
    from mabel.data.readers.internals.cursor import InvalidCursor

    rng = ctx.rng
    store, shape, uid = build(rng, empties=False)
    source = reader(store)
    for _ in range(2 if sum(shape) > 2 else 1):
        next(iter(source))
    good = source.cursor.get()
    bad = [{k: v for k, v in good.items() if k != gone} for gone in good]
    bad += [{**good, "map": v} for v in ("zz", "0", None, 5, ["00"])]
    bad += [{**good, "location": v} for v in (None, "x", [], {})]
    bad += [{**good, "partition": v, "location": 0} for v in (None, "nope", good["partition"] ^ 1, [], 12)]
    bad += [{"location": 1}, {"a": 1}]
    texts = [json.dumps(b) for b in bad] + ["{", "[]", "1", '"text"', "null1", json.dumps(good)[:-1], json.dumps(good)[1:], "not json", "[1, 2]"]
    for cursor in bad + texts:
        try:
            got = list(reader(store, cursor))
        except InvalidCursor:
            ctx.count("malformed_refused")
        except Exception as err:
            ctx.violation("a malformed cursor didn't raise InvalidCursor", cursor=cursor, error=repr(err))
        else:
            ctx.violation("a malformed cursor was read", cursor=cursor, read=len(got))
        ctx.seen(("malformed", str(cursor)))


def run(ctx):
    ctx.minimum = 100
    ctx.deadline(15, 420)
    for _ in range(ctx.n(3, 20)):
        malformed(ctx)
    for case in range(ctx.n(900, 20000)):
        if not ctx.more():
            break
        one(ctx, case)
        if case % 3 == 0:
            appended(ctx, case)
    ctx.require("stops", 300)
    ctx.require("many_blobs", 1)
    ctx.require("appended_cases", 50)
    ctx.require("malformed_refused", 60)
