"""
One case is a chain of lazy operations (select, filters of all kinds, distinct, take, itake) over
a source which counts what is taken from it (generators, iterators, re-iterable objects; endless
ones too), pulled one result at a time: after construction, and after each result, what was taken
must be what a chain of plain Python generators takes. Or a Reader or SQL statement over a storage
which logs its calls: nothing before the first result, then only the blobs up to the one with the
result. Non-trivial when something was filtered or left unread; distinct by chain and source.
"""

import datetime
import json

from vf.store import Store, adapters

ASSUMPTIONS = [
    "sets and readings are serial and not persisted",
    "listings of the storage aren't readings of it",
]

ENDLESS = 10**9


class Counter:
    """what was taken from a source"""

    def __init__(self, size, stop_after):
        self.taken = 0
        self.size = size
        self.stop_after = stop_after

    def record(self, i):
        return {"i": i, "mod": i % 5, "odd": i % 2 == 1, "name": f"n{i % 7}", "none": None}

    def get(self):
        i = self.taken
        self.taken += 1
        if i > self.stop_after:
            raise RuntimeError(f"{i} records taken of an endless source")
        if i >= self.size:
            raise StopIteration
        return self.record(i)

    def generator(self):
        while True:
            try:
                record = self.get()
            except StopIteration:
                return
            yield record

    def iterator(self):
        counter = self

        class Iterator:
            def __iter__(self):
                return self

            def __next__(self):
                return counter.get()

        return Iterator()

    def bare(self):
        """collections which are iterated over again each time"""
        counter = self

        class Again:
            def __iter__(self):
                return counter.generator()

        return Again()

    def mapped(self):
        return map(lambda r: r, self.generator())


PREDICATES = [
    ("mod = 3", lambda r: r.get("mod") == 3),
    ("odd = true AND mod > 0", lambda r: r.get("odd") is True and r.get("mod") is not None and r["mod"] > 0),
    ([("mod", "==", 2)], lambda r: r.get("mod") == 2),
    ([[("name", "==", "n1")], [("mod", "==", 4)]], lambda r: r.get("name") == "n1" or r.get("mod") == 4),
    ([("i", ">=", 11)], lambda r: r.get("i") is not None and r["i"] >= 11),
    (lambda r: r.get("i") is not None and r["i"] % 3 == 0, lambda r: r.get("i") is not None and r["i"] % 3 == 0),
    ("i >= 0", lambda r: r.get("i") is not None and r["i"] >= 0),
    ("name LIKE 'n%'", lambda r: r.get("name") is not None),
]
COLUMNS = [["i"], ["i", "mod"], ["mod"], ["name", "odd", "i"], ["mod", "odd"], ["i", "none", "missing"]]


def steps_of(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        kind = rng.choice(["select", "filter", "filter", "distinct", "take", "itake", "getitem"])
        if kind == "filter":
            out.append((kind, rng.randrange(len(PREDICATES))))
        elif kind in ("select", "getitem"):
            out.append((kind, rng.choice(COLUMNS + ["*"])))
        elif kind == "distinct":
            out.append((kind, rng.choice([[], [], ["mod"], ["name", "odd"]])))
        else:
            out.append((kind, rng.choice([0, 1, 2, 3, 7, 20])))
    return out


def apply(dictset, step):
    from mabel import DictSet

    kind, argument = step
    if kind == "select":
        return dictset.select(argument)
    if kind == "getitem":
        return dictset[argument]
    if kind == "filter":
        return dictset.filter(PREDICATES[argument][0])
    if kind == "distinct":
        return dictset.distinct(*argument)
    if kind == "take":
        return dictset.take(argument)
    return DictSet(dictset.itake(argument))


def reference(rows, step):
    kind, argument = step
    if kind in ("select", "getitem"):
        return rows if argument == "*" else ({c: r.get(c) for c in argument} for r in rows)
    if kind == "filter":
        return (r for r in rows if PREDICATES[argument][1](r))
    if kind == "distinct":
        return unique(rows, argument)
    return first(rows, argument)


def unique(rows, columns):
    seen = set()
    for r in rows:
        key = json.dumps([r.get(c, "missing") for c in columns] if columns else sorted(r.items()))
        if key not in seen:
            # it is known once the consumer asks for the next one
            yield r
            seen.add(key)


def first(rows, n):
    if n == 0:
        return
    for count, r in enumerate(rows, 1):
        yield r
        if count == n:
            return


def chain(ctx, case):
    from mabel import DictSet

    rng = ctx.rng
    size = rng.choice([0, 1, 3, 12, 40, ENDLESS, ENDLESS])
    kind = rng.choice(["generator", "iterator", "bare", "mapped"])
    steps = steps_of(rng)
    terminal = rng.choice(["next", "next", "for", "first", "take", "itake", "keys", "types", "list"])
    pulls = rng.choice([1, 2, 5, 12])
    limit = 3000
    ours, theirs = Counter(size, limit), Counter(size, limit)
    expected = getattr(theirs, "generator")()
    for step in steps:
        expected = reference(expected, step)
    detail = dict(source=kind, size="endless" if size == ENDLESS else size, steps=[(k, PREDICATES[a][0] if k == "filter" and isinstance(PREDICATES[a][0], (str, list)) else a) for k, a in steps], terminal=terminal)

    def build():
        dictset = DictSet(getattr(ours, kind)())
        for step in steps:
            dictset = apply(dictset, step)
        return dictset

    ok, dictset = ctx.guard("build a chain", build, detail=detail)
    if not ok:
        return
    if not ctx.check(ours.taken == 0, "building a chain of lazy operations took records", taken=ours.taken, **detail):
        return
    # a chain which has no more results than it gave would look through an endless source for ever
    want, taken = [], [0]
    wanted = {"first": 1, "keys": pulls, "types": pulls, "list": 10**6}.get(terminal, pulls)
    ended = False
    try:
        iterator = iter(expected)
        while len(want) < wanted:
            record = next(iterator, None)
            taken.append(theirs.taken)
            if record is None:
                ended = True
                break
            want.append(record)
    except RuntimeError:
        if terminal in ("list", "keys", "types", "take", "itake", "first"):
            return
        ended = "never"
    got = []
    if terminal in ("next", "for"):
        def pull():
            iterator = iter(dictset)
            for i in range(len(want)):
                got.append(dict(next(iterator)))
                if ours.taken != taken[i + 1]:
                    return i
            if ended is True:
                end = next(iterator, None)
                if end is not None:
                    got.append(end)
                elif ours.taken != taken[-1]:
                    return "end"
            return None

        ok, wrong = ctx.guard("pull results", pull, detail=detail)
        if not ok:
            return
        ctx.check(wrong is None, "more (or less) of the source was taken than the result needs", result=wrong, taken=ours.taken,
                  needed=taken[wrong + 1] if isinstance(wrong, int) else taken[-1], **detail)
        ctx.check(got == want, "the results of a chain are wrong", got=got[:4], want=want[:4], **detail)
        ctx.count("pulls", len(want))
    else:
        def use():
            if terminal == "first":
                record = dictset.first()
                return [] if record is None else [record]
            if terminal == "take":
                return list(dictset.take(pulls))
            if terminal == "itake":
                return list(dictset.itake(pulls))
            if terminal == "keys":
                return dictset.keys(pulls)
            if terminal == "types":
                return dictset.types(pulls)
            return list(dictset)

        ok, result = ctx.guard(f"use {terminal}", use, detail=detail)
        if not ok:
            return
        if terminal in ("first", "take", "itake", "list"):
            ctx.check([dict(r) for r in result] == want, "the results of a chain are wrong", got=result[:4], want=want[:4], **detail)
        if terminal == "keys":
            ctx.check(set(result) == {k for r in want for k in r}, "keys of a chain are wrong", got=result, **detail)
        ctx.check(ours.taken == taken[-1], "more (or less) of the source was taken than needed", taken=ours.taken, needed=taken[-1], **detail)
        ctx.count("terminals")
    if size == ENDLESS:
        ctx.count("endless")
    ctx.seen(detail, nontrivial=bool(want) and (ended is not True or len(want) < size), sample=detail)


def shared(ctx, case):
    """what a chain leaves of a generator is there for the next one"""
    from mabel import DictSet

    rng = ctx.rng
    source = Counter(ENDLESS, 3000)
    generator = source.generator()
    dictset = DictSet(generator)
    position = 0
    for _ in range(rng.randint(2, 6)):
        n = rng.choice([1, 2, 5])
        how = rng.choice(["take", "itake", "first", "next", "filter"])
        if how == "take":
            got = [r["i"] for r in dictset.take(n)]
        elif how == "itake":
            got = [r["i"] for r in dictset.itake(n)]
        elif how == "first":
            got, n = [dictset.first()["i"]], 1
        elif how == "next":
            got, n = [next(iter(dictset))["i"]], 1
        else:
            got = [r["i"] for r in dictset.filter(lambda r: True).select(["i"]).take(n)]
        if not ctx.check(got == list(range(position, position + n)), "records of a generator were lost between two uses", how=how, got=got, want=list(range(position, position + n))):
            return
        position += n
        ctx.count("uses")
    ctx.check(next(generator)["i"] == position, "a record was taken which wasn't asked for", position=position)
    ctx.seen(("shared", position, rng.random()), sample={"shared": position})


def reading(ctx, case):
    from mabel import Reader
    from mabel.data.readers import SqlReader

    rng = ctx.rng
    store = Store()
    base = datetime.date(2024, 2, 27)
    days = rng.randint(1, 3)
    order = []
    uid = 0
    for d in range(days):
        folder = (base + datetime.timedelta(days=d)).strftime("lazy/ds/year_%Y/month_%m/day_%d")
        for b in range(rng.randint(1, 4)):
            records = []
            for _ in range(rng.choice([0, 1, 3, 10])):
                records.append({"i": uid, "mod": uid % 5, "odd": uid % 2 == 1, "name": f"n{uid % 7}"})
                uid += 1
            name = f"{folder}/{b}.jsonl"
            store.put(name, b"".join(json.dumps(r).encode() + b"\n" for r in records) or b"\n")
            order.append((name, records))
    if not uid:
        return
    filters = rng.choice([None, None] + PREDICATES[:5])
    select = rng.choice([None, None, "i, mod, odd, name", "name, odd, UPPER(name), mod, i"])
    kind = rng.choice(["reader", "reader", "sql"])
    steps = [(k, a) for k, a in steps_of(rng) if k in ("filter", "take", "itake", "distinct")]
    columns = ["i"]
    extra = dict(inner_reader=adapters(store)[1], start_date=base, end_date=base + datetime.timedelta(days=days - 1))
    n = rng.choice([1, 2, 3, 7, 30])
    if kind == "sql":
        steps = []
        if filters is not None and not isinstance(filters[0], str):
            filters = None
        statement = f"SELECT {rng.choice(['*', 'i', 'i, mod'])} FROM lazy.ds" if rng.random() < 0.5 else "SELECT i AS identity, mod, i FROM lazy.ds"
        if filters:
            statement += " WHERE " + filters[0]
        statement += f" LIMIT {n}"
    detail = dict(kind=kind, blobs=[len(r) for _, r in order], filters=str(filters and filters[0]), select=select, n=n, steps=[(k, str(a)) for k, a in steps])
    if kind == "sql":
        detail["statement"] = statement

    def source():
        for position, (name, records) in enumerate(order):
            state["reached"] = position + 1
            for r in records:
                if not filters or filters[1](r):
                    yield {k: r[k] for k in ("i", "mod", "odd", "name")}

    state = {"reached": 0}
    if select and kind == "reader":
        steps = [s for s in steps if s[0] in ("take", "itake")]
    expected = source()
    for step in steps:
        expected = reference(expected, step)

    def build():
        if kind == "sql":
            return SqlReader(statement, **extra)
        parameters = dict(extra)
        if filters:
            parameters["filters"] = filters[0]
        if select:
            parameters["select"] = select
        dictset = Reader(dataset="lazy/ds", **parameters)
        for step in steps:
            dictset = apply(dictset, step)
        return dictset

    ok, dictset = ctx.guard("construct a Reader", build, detail=detail)
    if not ok:
        return
    if not ctx.check(not store.ops("list") and not store.ops("get"), "constructing a Reader used the storage", calls=[e[1:3] for e in store.events if e[1] != "put"][:5], **detail):
        return
    ctx.count("constructions")
    if kind == "reader" and any(k in ("take", "itake") and a == 0 for k, a in steps):
        return

    def fetched():
        return [e[2] for e in store.ops("get")]

    def pull():
        iterator = iter(dictset)
        for i in range(n):
            record = next(iterator, None)
            wanted = next(expected, None)
            if (record is None) != (wanted is None):
                return "results", i, record, wanted
            if record is None:
                break
            if dict(record)["i"] != wanted["i"]:
                return "results", i, dict(record), wanted
            if fetched() != [name for name, _ in order[: state["reached"]]]:
                return "blobs", i, fetched(), state["reached"]
            ctx.count("results")
        else:
            if kind == "sql":
                # the limit was reached, there's nothing else to read
                if next(iterator, None) is not None or fetched() != [name for name, _ in order[: state["reached"]]]:
                    return "limit", n, fetched(), state["reached"]
            if state["reached"] < len(order):
                ctx.count("unread_blobs", len(order) - state["reached"])
        return None

    ok, wrong = ctx.guard("pull results of a Reader", pull, detail=detail)
    if ok and wrong is not None:
        ctx.violation("a Reader gave other results, or read other blobs, than needed for the first results", which=wrong[0], at=wrong[1], got=str(wrong[2])[:300], needed=str(wrong[3])[:300], **detail)
    ctx.count(kind)
    ctx.seen(detail, nontrivial=state["reached"] < len(order), sample=detail)


def run(ctx):
    ctx.minimum = 300
    ctx.deadline(12, 400)
    for case in range(ctx.n(4000, 60000)):
        if not ctx.more():
            break
        chain(ctx, case)
        chain(ctx, case)
        shared(ctx, case)
        reading(ctx, case)
    for name, least in (("pulls", 300), ("terminals", 200), ("endless", 150), ("uses", 300), ("constructions", 100), ("results", 200), ("unread_blobs", 100), ("sql", 30), ("reader", 60)):
        ctx.require(name, least)
