"""
One case is a list of records (none, one, about and across internal batches and buffers)
kept under each storage class, from a list, a generator, or read by a Reader or a query told
how to keep it, and a sequence of operations on each set. Every operation must give what it means for the list, on each set and each time: so the answers are the same, and no operation affects another. Interleaved with the
operations: partial iterations, count, and iterating twice at once. Non-trivial when there
were records; distinct by records and operations.
"""

import orjson

from vf import setops
from vf.codec import typed
from vf.store import Store, adapters

ASSUMPTIONS = [
    "records are JSON values: DISK and COMPRESSED_MEMORY keep records as JSON",
    "get_items is asked for positions which exist",
]

SIZES = [0, 1, 2, 5, 20, 20, 60, 249, 250, 251, 499, 500, 501, 750]


def big(ctx):
    """past the buffer of the DISK class, with many bytes in each record"""
    from mabel import DictSet
    from mabel.data.internals.dictset import STORAGE_CLASS

    rng = ctx.rng
    size = rng.choice([1, 2, 5]) * 1024 * 1024
    records = [{"id": i, "text": rng.choice("abcé") * size, "last": i} for i in range(40 * 1024 * 1024 // size)]
    want = [typed(r) for r in records]
    for storage in (STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY, STORAGE_CLASS.MEMORY):
        ok, ds = ctx.guard("persist large records", lambda: DictSet(iter(records), storage_class=storage), detail=dict(storage=storage.name))
        if not ok:
            return
        for attempt in range(2):
            if [typed(r) for r in ds] != want:
                ctx.violation("large records aren't the same", storage=storage.name, attempt=attempt)
                return
        at = [len(records) - 1, 0, len(records) // 2]
        ctx.check([r["id"] for r in ds.get_items(*at)] == at and ds.count() == len(records), "large records can't be got by position", storage=storage.name)
        ctx.count("large_sets")
    ctx.seen(("large", size, len(records)))


def interleaved(ctx):
    """using a set while it's being iterated"""
    from mabel import DictSet
    from mabel.data.internals.dictset import STORAGE_CLASS

    for storage in STORAGE_CLASS:
        for use, name in ((lambda d: d.keys(), "keys"), (lambda d: d.first(), "first"), (lambda d: list(d), "list"), (lambda d: d.count(), "count"), (lambda d: d.collect_list("a"), "collect_list")):
            ds = DictSet([{"a": i} for i in range(5)], storage_class=storage)
            got = []
            for r in ds:
                got.append(r["a"])
                use(ds)
                if len(got) > 20:
                    break
            if got != [0, 1, 2, 3, 4]:
                ctx.violation(f"using {name} of a {storage.name} set while iterating it changes the iteration", key="use-while-iterating" if storage.name != "NO_PERSISTANCE" and name != "count" else None, got=got)
            ctx.count("interleaved")
            ctx.seen(("interleaved", storage.name, name))


def read(rng, records, storage):
    """the records in a few blobs, read by a Reader, or a query, told how to keep them"""
    from mabel import Reader, SqlReader

    store = Store()
    cuts = sorted(rng.randint(0, len(records)) for _ in range(rng.choice([0, 0, 1, 3])))
    for i, (a, b) in enumerate(zip([0] + cuts, cuts + [len(records)])):
        store.put(f"data/set/part-{i}.jsonl", b"\n".join(map(orjson.dumps, records[a:b])))
    inner = adapters(store)[1]
    if rng.random() < 0.3:
        return SqlReader("SELECT * FROM data.set", inner_reader=inner, partitions=None, persistence=storage)
    return Reader(dataset="data/set", inner_reader=inner, partitions=None, persistence=storage)


def one(ctx, case):
    from mabel import DictSet
    from mabel.data.internals.dictset import STORAGE_CLASS

    rng = ctx.rng
    records = setops.records(rng, rng.choice(SIZES)) if case % 7 else []
    pristine = [typed(r) for r in records]
    sets = {}
    for storage in STORAGE_CLASS:
        how = "list" if storage == STORAGE_CLASS.NO_PERSISTANCE or rng.random() < 0.5 else "generator"
        mine = list(records) if storage != STORAGE_CLASS.NO_PERSISTANCE and rng.random() < 0.5 else records
        source = mine if how == "list" else (r for r in mine)
        if storage != STORAGE_CLASS.NO_PERSISTANCE and rng.random() < 0.15:
            how = "read"
            ctx.count("sets_read")
        ok, ds = ctx.guard("making a set", lambda: read(rng, records, storage) if how == "read" else DictSet(source, storage_class=storage), detail=dict(storage=storage.name, size=len(records), how=how))
        if not ok:
            return
        if mine is not records:
            # the set has the records, what becomes of the list doesn't matter
            rng.choice([mine.clear, mine.reverse, lambda: mine.append({"not": "in the set"})])()
            ctx.count("source_changed")
        sets[storage.name] = ds
    done = []
    for step in range(rng.randint(3, 9)):
        name, args, do, mean = setops.operation(rng, records)
        done.append((name, args))
        want = mean(records)
        for storage, ds in sets.items():
            detail = dict(storage=storage, operation=name, arguments=str(args), before=str(done[:-1]), size=len(records))
            ok, got = ctx.guard(f"{name}", lambda: do(ds), detail=detail)
            if not ok:
                return
            if got != want:
                at = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want))) if isinstance(got, list) else None
                ctx.violation("an operation's answer is wrong for a storage class", at=at, expected=str(want[at] if at is not None and at < len(want) else want)[:400],
                              got=str(got[at] if at is not None and at < len(got) else got)[:400], lengths=(len(want) if hasattr(want, "__len__") else None, len(got) if hasattr(got, "__len__") else None), **detail)
                return
            if ds.count() != len(records):
                ctx.violation("count isn't the number of records", got=ds.count(), **detail)
                return
            if rng.random() < 0.3:
                # abandon an iteration
                it = iter(ds)
                for _ in range(rng.randint(0, 3)):
                    next(it, None)
                ctx.count("abandoned_iterations")
            if rng.random() < 0.3 and [typed(r) for r in ds] != pristine:
                ctx.violation("a set doesn't hold the records it was given, in order", **detail)
                return
            ctx.count("answers")
            ctx.count(f"{storage}")
        ctx.count("op " + name)
    ctx.seen((pristine[:5], len(records), [(n, str(a)) for n, a in done]), nontrivial=bool(records), sample=dict(size=len(records), operations=[n for n, _ in done]))


def run(ctx):
    ctx.minimum = 80
    ctx.deadline(16, 420)
    interleaved(ctx)
    for _ in range(ctx.n(1, 6)):
        big(ctx)
    for case in range(ctx.n(450, 15000)):
        if not ctx.more():
            break
        one(ctx, case)
    ctx.require("answers", 800)
    ctx.require("source_changed", 50)
    ctx.require("abandoned_iterations", 80)
    ctx.require("large_sets", 3)
    ctx.require("sets_read", 20)
    for op in ("list", "sort", "get_items", "filter", "distinct", "types", "keys"):
        ctx.require("op " + op, 10)
