"""
One case is a handful of threads, each with sessions of its own (reading, SQL, writing batches,
plain blobs and streams, operations on sets of every storage class, patterns, dates, paths,
schemas) and some objects all of them share (Expression, DnfFilters, Evaluator). Each session is
run alone first, then all at once with the interpreter switching threads every microsecond, and
with records and storages which let another thread go first when they're used. Each answer must
be what it was alone. The turns threads took at the points watched are counted. Non-trivial when
they did; distinct by the sessions.
"""

import datetime
import json
import lzma
import threading
import time

from vf import gen, stress
from vf.codec import bag, decode_blob, typed
from vf.store import Store, adapters

ASSUMPTIONS = [
    "threads share filters, expressions and evaluators, and the module's own state, but no readers, writers or sets",
    "threads switch at points which are sampled",
]

TURNS = {"on": False, "last": None, "points": 0, "turns": 0}


def pause():
    """let another thread go first, now and then"""
    if not TURNS["on"]:
        return
    me = threading.get_ident()
    TURNS["points"] += 1
    if TURNS["last"] != me:
        TURNS["turns"] += 1
        TURNS["last"] = me
    if TURNS["points"] % 3 == 0:
        time.sleep(0)


class Yielding(dict):
    """a record"""

    def __getitem__(self, key):
        pause()
        return dict.__getitem__(self, key)

    def get(self, key, default=None):
        pause()
        return dict.get(self, key, default)

    def __contains__(self, key):
        pause()
        return dict.__contains__(self, key)

    def items(self):
        pause()
        return dict.items(self)

    def copy(self):
        pause()
        return Yielding(self)


def rows(rng, count, uid):
    return [
        {"uid": f"{uid}.{i}", "k": rng.choice("abc"), "n": rng.choice([0, 1, 2, 3, -4, 9]), "name": rng.choice(["Alpha", "beta", "gam%ma", "x_y", ""]),
         "d": rng.choice(["2021-01-05", "2020-02-29T10:30:45"]), "f": rng.choice([0.5, -1.25, 3.0])}
        for i in range(count)
    ]


EXPRESSIONS = ["n > 0 AND k = 'a'", "NOT (n = 1 OR k IN ('a', 'c'))", "name LIKE '%a' OR n < 0", "k = 'b' AND name != '' AND n >= 1", "name LIKE 'g%' AND NOT k = 'a'", "n = 0 OR n = 1 OR n = 2", "f > 0 AND n > 0"]
DNFS = [[("n", ">", 0), ("k", "==", "a")], [[("k", "==", "a"), ("n", "<", 3)], [("name", "like", "%a"), ("n", "!=", 0)]], [("k", "in", ["a", "c"]), ("f", ">", 0)], [("name", "like", "g%")]]
SELECTS = ["*", "uid, n, UPPER(name)", "uid, CONCAT(k), YEAR(d) AS y", "LEFT(name, 2) AS l, uid, ABS(n)", "uid, LEN(name), LOWER(k) AS low, n", "HASH(uid), uid", "uid, ISNONE(n), ROUND(f)"]
STATEMENTS = [
    "SELECT uid, n FROM {} WHERE n > 0", "SELECT k, COUNT(*), MAX(n) FROM {} GROUP BY k ORDER BY k", "SELECT DISTINCT k FROM {} ORDER BY k DESC", "SELECT UPPER(name), uid FROM {} WHERE name LIKE '%a%' LIMIT 5",
    "SELECT uid FROM {} WHERE k IN ('a', 'b') ORDER BY uid LIMIT 7", "SELECT k, SUM(n) AS total FROM {} WHERE f > 0 GROUP BY k HAVING total > 0 ORDER BY k",
]


def storage(rng):
    store = Store()

    def hook(*args):
        pause()

    store.before_put = store.after_put = store.before_get = store.on_list = hook
    return store


# each of these makes a session: a function which can be called again and again, and gives an answer
def share_expression(rng, uid, shared):
    which = rng.randrange(len(EXPRESSIONS))
    records = [Yielding(r) if rng.random() < 0.8 else r for r in rows(rng, 25, uid)]
    return lambda: [bool(shared["expressions"][which](r)) for r in records], ("Expression", EXPRESSIONS[which])


def share_dnf(rng, uid, shared):
    which = rng.randrange(len(DNFS))
    records = [Yielding(r) if rng.random() < 0.8 else r for r in rows(rng, 25, uid)]
    if rng.random() < 0.5:
        return lambda: [bool(shared["dnfs"][which](r)) for r in records], ("DnfFilters", str(DNFS[which]))
    return lambda: [dict(r)["uid"] for r in shared["dnfs"][which].filter_dictset(iter(records))], ("DnfFilters set", str(DNFS[which]))


def share_evaluator(rng, uid, shared):
    which = rng.randrange(len(SELECTS))
    records = [Yielding(r) if rng.random() < 0.8 else r for r in rows(rng, 20, uid)]
    return lambda: [typed(dict(shared["evaluators"][which](r))) for r in records], ("Evaluator", SELECTS[which])


def reading(rng, uid, shared):
    from mabel import Reader

    store = storage(rng)
    day = gen.some_date(rng)
    for b in range(rng.randint(1, 4)):
        records = rows(rng, rng.randint(1, 12), f"{uid}.{b}")
        store.put(day.strftime(f"threads/{uid}/year_%Y/month_%m/day_%d/{b}.jsonl"), b"".join(json.dumps(r).encode() + b"\n" for r in records))
    extra = {}
    if rng.random() < 0.5:
        extra["filters"] = rng.choice(EXPRESSIONS + DNFS)
    else:
        extra["select"] = rng.choice(SELECTS)
    inner = adapters(store)[1]

    def session():
        reader = Reader(dataset=f"threads/{uid}", start_date=day, end_date=day, inner_reader=inner, **extra)
        out = [typed(dict(r)) for r in reader]
        return out, repr(reader.cursor)

    return session, ("Reader", str(extra))


def sql(rng, uid, shared):
    from mabel.data.readers import SqlReader

    store = storage(rng)
    for b in range(rng.randint(1, 3)):
        records = rows(rng, rng.randint(1, 15), f"{uid}.{b}")
        store.put(f"threads/s{uid}/2024-01-01/{b}.jsonl", b"".join(json.dumps(r).encode() + b"\n" for r in records))
    statement = rng.choice(STATEMENTS).format(f"threads.s{uid}")
    inner = adapters(store)[1]
    return lambda: [typed(dict(r)) for r in SqlReader(statement, partitions=["{yyyy}-{mm}-{dd}"], start_date="2024-01-01", end_date="2024-01-01", inner_reader=inner)], ("SQL", statement)


def writing(rng, uid, shared):
    from mabel import Reader, Writer
    from mabel.data import BatchWriter, StreamWriter

    kind = rng.choice([Writer, BatchWriter, BatchWriter, StreamWriter])
    form = rng.choice(["jsonl", "zstd", "flat"] if kind is not StreamWriter else ["jsonl", "zstd"])
    day = gen.some_date(rng) if kind is not StreamWriter else None
    schema = [{"name": c, "type": t} for c, t in (("uid", "VARCHAR"), ("k", "VARCHAR"), ("n", "INTEGER"), ("name", "VARCHAR"), ("d", "VARCHAR"), ("f", "DOUBLE"))]
    if rng.random() < 0.4:
        form = "parquet"
    records = rows(rng, rng.randint(1, 30), uid)
    for r in records:
        r["d"] = "text " + r["d"]
    size = rng.choice([60, 500, 10**6])

    def session():
        store = storage(rng)
        writer_class, reader_class = adapters(store)
        dataset = f"threads/w{uid}" + ("/{k}" if kind is StreamWriter else "")
        extra = {} if day is None else {"date": day}
        writer = kind(dataset=dataset, schema=schema, format=form, blob_size=size, inner_writer=writer_class, **extra)
        for r in records:
            writer.append(Yielding(r) if form != "parquet" and len(records) % 2 else dict(r))
        writer.finalize()
        blobs = store.data_blobs()
        folders = sorted({n.rsplit("/", 1)[0] if kind is not BatchWriter else n.rsplit("/", 2)[0] for n in blobs})
        flags = sum(1 for n in store.blobs if n.endswith("frame.complete"))
        stored = bag([r for n, data in sorted(blobs.items()) for r in decode_blob(n, data)])
        if day is not None:
            read = bag([dict(r) for r in Reader(dataset=dataset, start_date=day, end_date=day, inner_reader=reader_class)])
        else:
            read = None
        return sorted(stored.items(), key=repr), folders, flags, read == stored if read is not None else None, len(store.overwrites)

    return session, (kind.__name__, form, size)


def using_sets(rng, uid, shared):
    from mabel import DictSet
    from mabel.data.internals.dictset import STORAGE_CLASS

    records = rows(rng, rng.choice([3, 20, 60]), uid)
    kind = rng.choice(list(STORAGE_CLASS))
    where = rng.choice(EXPRESSIONS)
    columns = rng.choice([["k", "n"], ["uid"], ["name", "f", "n"]])

    def session():
        d = DictSet([Yielding(r) for r in records] if kind == STORAGE_CLASS.NO_PERSISTANCE else iter(records), storage_class=kind)
        return [
            [typed(dict(r)) for r in d.filter(where).select(columns)],
            [typed(dict(r)) for r in d.select(columns).distinct()],
            sorted(repr(sorted(r.items())) for r in d.group_by("k").aggregate([("SUM", "n"), ("MAX", "f"), ("COUNT", "uid")])),
            [typed(dict(r)) for r in d.sort_and_take("n", 5)],
            d.keys(), d.types(), d.sum("n"), d.min_max("f"), d.mean("n"), hash(d), d.count(),
            d.collect_list("uid"), d.to_ascii_table(4), d.to_html_table(4),
            [typed(dict(r)) for r in d.take(3)], sorted(d.collect_set("k").count().items()), [typed(dict(r)) for r in d.get_items(0, 2)],
        ]

    return session, ("DictSet", kind.name, where, str(columns))


def utilities(rng, uid, shared):
    from mabel.data.internals.records import flatten
    from mabel.data.validator import schema_loader
    from mabel.utils import dates, paths, text

    patterns = ["".join(rng.choice("ab%_x.*[") for _ in range(rng.randint(1, 6))) for _ in range(12)]
    values = ["".join(rng.choice("abx.*[") for _ in range(rng.randint(0, 5))) for _ in range(12)]
    days = [gen.some_date(rng) for _ in range(8)]
    template = rng.choice(["a/{yyyy}/{mm}/{dd}/", "x/year_{yyyy}/month_{mm}/day_{dd}/{HH}/", f"{uid}/{{yyyy}}-{{mm}}/"])
    nested = [{"a": {uid: [1, {"b": i}]}, "c": {"d": i}} for i in range(6)]
    schema = [{"name": f"c{uid}{i}", "type": rng.choice(["VARCHAR", "INTEGER"])} for i in range(4)]
    moments = [f"{d.isoformat()}T{rng.randint(0, 23):02d}:{rng.randint(0, 59):02d}" for d in days]

    def session():
        out = []
        for p, v in zip(patterns, values):
            out.append((p, v, bool(text.like(v, p))))
        for v in values:
            for p in patterns:
                out.append(bool(text.like(v, p)))
        out += [paths.build_path(template, d) for d in days]
        out += [str(dates.parse_iso(m)) for m in moments]
        out += [len(list(dates.date_range(d, d + datetime.timedelta(days=3)))) for d in days]
        out += [sorted(flatten(n).items()) for n in nested]
        out += [c.name for c in schema_loader(schema).columns]
        return out

    return session, ("utilities", template)


def making(rng, uid, shared):
    """objects are made by many threads at once"""
    from mabel.data.internals.dnf_filters import DnfFilters
    from mabel.data.internals.expression import Expression
    from mabel.data.readers.internals.inline_evaluator import Evaluator

    records = rows(rng, 6, uid)
    order = [rng.choice([("e", rng.choice(EXPRESSIONS)), ("d", rng.choice(DNFS)), ("s", rng.choice(SELECTS))]) for _ in range(12)]

    def session():
        out = []
        for kind, definition in order:
            made = {"e": Expression, "d": DnfFilters, "s": Evaluator}[kind](definition)
            for r in records:
                answer = made(Yielding(r))
                out.append(typed(dict(answer)) if kind == "s" else bool(answer))
        return out

    return session, ("making", str(order))


def bulk(rng, uid, shared):
    """blobs large enough for several threads to be inside a compressor or a parser"""
    from mabel import DictSet, Reader, Writer
    from mabel.data.internals.dictset import STORAGE_CLASS

    form = rng.choice(["zstd", "zstd", "jsonl", "parquet", "lzma"])
    records = [{"uid": f"{uid}.{i}", "pad": f"{rng.getrandbits(900):x}" + "text " * 40} for i in range(rng.choice([60, 300]))]
    schema = [{"name": "uid", "type": "VARCHAR"}, {"name": "pad", "type": "VARCHAR"}]

    def session():
        store = Store()
        writer_class, reader_class = adapters(store)
        for _ in range(6):
            store.blobs.clear()
            if form == "lzma":
                store.put("bulk/2024/b.lzma", lzma.compress(b"".join(json.dumps(r).encode() + b"\n" for r in records), preset=0))
            else:
                writer = Writer(dataset="bulk", schema=schema, format=form, inner_writer=writer_class, partitions=["2024"], blob_size=30_000)
                for r in records:
                    writer.append(dict(r))
                writer.finalize()
            got = [dict(r) for r in Reader(dataset="bulk", partitions=["2024"], inner_reader=reader_class)]
            if got != records:
                return f"read {len(got)}, wrote {len(records)}"
        kept = list(DictSet(iter(records), storage_class=STORAGE_CLASS.COMPRESSED_MEMORY))
        return kept == records

    return session, ("bulk", form, len(records))


SESSIONS = [share_expression, share_expression, share_dnf, share_dnf, share_evaluator, share_evaluator, reading, sql, writing, writing, using_sets, utilities, making]


def one(ctx, case):
    from mabel.data.internals.dnf_filters import DnfFilters
    from mabel.data.internals.expression import Expression
    from mabel.data.readers.internals.inline_evaluator import Evaluator

    rng = ctx.rng

    def objects():
        return {"expressions": [Expression(e) for e in EXPRESSIONS], "dnfs": [DnfFilters(d) for d in DNFS], "evaluators": [Evaluator(s) for s in SELECTS]}

    shared = objects()
    threads = rng.choice([2, 3, 4, 6]) if case % 12 else 6
    theme = rng.choice([None, None, share_expression, share_dnf, share_evaluator, writing, using_sets, utilities, making, reading, sql])
    if not case % 12:
        theme = bulk
    plans = []
    for t in range(threads):
        plan = []
        for s in range(rng.randint(1, 4) if theme is not bulk else 1):
            make = theme if theme and (theme is bulk or rng.random() < 0.8) else rng.choice(SESSIONS)
            plan.append((make.__name__, *make(rng, f"{case}t{t}s{s}", shared)))
        plans.append(plan)
    # alone
    want = []
    for plan in plans:
        answers = []
        for name, session, about in plan:
            ok, answer = ctx.guard("a session alone", session, detail={"session": name, "about": about})
            if not ok:
                return
            answers.append(answer)
        want.append(answers)
    got = [[] for _ in plans]
    shared.update(objects())  # nothing is remembered from before
    rounds = 2

    def runner(index):
        def run():
            for _ in range(rounds):
                for name, session, about in plans[index]:
                    got[index].append((name, about, session()))

        return run

    TURNS.update(on=True, last=None, points=0, turns=0)
    try:
        with stress.switch_interval(1e-6):
            errors, stuck = stress.run_threads([runner(i) for i in range(threads)], progress=lambda: sum(map(len, got)))
    finally:
        TURNS["on"] = False
    ctx.count("points", TURNS["points"])
    ctx.count("turns", TURNS["turns"])
    about = [[(name, str(a)) for name, _, a in plan] for plan in plans]
    if stuck:
        ctx.violation("threads stopped", sessions=about, stacks=stress.stacks())
        return
    for index, err in errors.items():
        at = len(got[index]) % len(plans[index])
        ctx.violation("a session failed among others", session=about[index][at], error=repr(err)[:300], sessions=about)
        return
    for index in range(threads):
        for at, (name, a, answer) in enumerate(got[index]):
            expected = want[index][at % len(plans[index])]
            ctx.count("sessions")
            ctx.count(name)
            if answer != expected:
                ctx.violation("a session gave another answer among others than alone", session=name, about=str(a), got=str(answer)[:600], want=str(expected)[:600], sessions=about)
                return
    ctx.seen(about, nontrivial=TURNS["turns"] > threads or theme is bulk, sample={"threads": threads, "sessions": [[n for n, _ in p] for p in about], "points": TURNS["points"], "turns": TURNS["turns"]})


def run(ctx):
    ctx.minimum = 30
    ctx.deadline(25, 500)
    for case in range(ctx.n(2000, 40000)):
        if not ctx.more():
            break
        one(ctx, case)
    for name, least in (("sessions", 300), ("turns", 3000), ("share_expression", 40), ("share_dnf", 40), ("share_evaluator", 40), ("reading", 20), ("writing", 30), ("using_sets", 20), ("making", 20), ("sql", 20), ("utilities", 15), ("bulk", 12)):
        ctx.require(name, least)
