"""
DictSet operations, each with what it means for a plain list of records: the oracle of the
checks of sets. An operation is (name, arguments, do(set), mean(records)); do returns plain
values which are compared, with their types, to what mean returns.
"""



from vf import gen
from vf.codec import typed

TEXTS = ["abc", "", "$$", "None", "b", "B", "é", "1", "a,b", "['a']", "日本", "x\ny"]
NUMBERS = [0, 1, -1, 2, 3, 7, 10, -0.0, 0.0, 1.0, 0.5, 1e10, 2**40]


def record(rng, i, hostile=True):
    r = {}
    if rng.random() < 0.95:
        r["id"] = i
    if rng.random() < 0.85:
        r["n"] = None if rng.random() < 0.1 else rng.choice(NUMBERS) if rng.random() < 0.5 else rng.randint(-9, 9)
    if rng.random() < 0.85:
        r["t"] = None if rng.random() < 0.1 else rng.choice(TEXTS)
    if rng.random() < 0.7:
        r["mix"] = rng.choice([None, True, False, 1, 0, 1.0, "1", "True", "None", [], [1], ["1"], {}, {"a": 1}, {"a": None}, ""])
    if rng.random() < 0.2:
        r[rng.choice(["late", "*x", "with space", "a.b", "ключ"])] = gen.json_value(rng, 1)
    keys = list(r)
    if hostile and rng.random() < 0.3:
        rng.shuffle(keys)
    return {k: r[k] for k in keys}


def records(rng, size):
    out = [record(rng, i) for i in range(size)]
    if out and rng.random() < 0.1:
        out[rng.choice([0, 0, rng.randrange(size)])] = {}
    for _ in range(rng.choice([0, 0, size // 5, size // 2])):
        # repeats, with the keys in another order
        r = rng.choice(out)
        out.insert(rng.randint(0, len(out)), dict(reversed(list(r.items()))))
    return out[:size] if rng.random() < 0.5 else out


def rows(ds):
    return [typed(r) for r in ds]


def keys_of(recs):
    seen = []
    for r in recs:
        seen += [k for k in r if k not in seen]
    return seen


def types_of(recs, n):
    top = recs[:n]
    out = {}
    for k in keys_of(top):
        names = {type(r[k]).__name__ for r in top if k in r and r[k] is not None}
        out[k] = "empty" if not names else names.copy().pop() if len(names) == 1 else "numeric" if names == {"int", "float"} else "mixed"
    return out


def sort_rows(recs, column, take, descending):
    order = sorted(range(len(recs)), key=lambda i: (0, 0) if recs[i].get(column) is None else (1, recs[i][column]), reverse=descending)
    return [typed(recs[i]) for i in order][:take]


def dedupe(recs, columns):
    seen, out = set(), []
    for r in recs:
        key = tuple(typed(r[c]) if c in r else "missing" for c in columns) if columns else typed(r)
        if key not in seen:
            seen.add(key)
            out.append(typed(r))
    return out


PREDICATES = [
    ("callable", lambda: (lambda r: r.get("n") is not None and r["n"] > 1), lambda r: r.get("n") is not None and r["n"] > 1),
    ("callable true", lambda: (lambda r: True), lambda r: True),
    ("callable truthy", lambda: (lambda r: r.get("t")), lambda r: bool(r.get("t"))),
    ("callable none", lambda: (lambda r: None), lambda r: False),
    ("dnf", lambda: [("n", ">=", 1), ("t", "!=", "b")], lambda r: r.get("n") is not None and r["n"] >= 1 and r.get("t") is not None and r["t"] != "b"),
    ("dnf tuple", lambda: ("t", "in", ["abc", "$$"]), lambda r: r.get("t") in ("abc", "$$")),
    ("dnf or", lambda: [[("n", "<", 0)], [("t", "=", "B")]], lambda r: (r.get("n") is not None and r["n"] < 0) or r.get("t") == "B"),
    ("expression", lambda: "n > 2 OR t = 'abc'", lambda r: (r.get("n") is not None and r["n"] > 2) or r.get("t") == "abc"),
    ("expression null", lambda: "t IS NULL", lambda r: r.get("t") is None),
]


def operation(rng, recs):
    size = len(recs)
    columns = ["id", "n", "t", "mix", "late", "never"]
    some = lambda: rng.choice([0, 1, 2, size // 2, max(size - 1, 0), size, size + 3])  # noqa
    k = rng.choice(["list", "first", "take", "itake", "select", "select many", "getitem", "filter", "distinct", "distinct on", "keys", "keys n", "types", "collect", "collect all",
                    "get_items", "sort", "sort", "chain"])
    if k == "list":
        return k, (), rows, lambda rs: [typed(r) for r in rs]
    if k == "first":
        return k, (), lambda ds: typed(ds.first()), lambda rs: typed(rs[0] if rs else None)
    if k in ("take", "itake"):
        n = some()
        return k, (n,), lambda ds: rows(getattr(ds, k)(n)), lambda rs: [typed(r) for r in rs[:n]]
    if k == "select":
        c = rng.choice(columns)
        name = rng.choice(["select", "project"])
        return name, (c,), lambda ds: rows(getattr(ds, name)(c)), lambda rs: [typed({c: r.get(c)}) for r in rs]
    if k in ("select many", "getitem"):
        cs = rng.sample(columns, rng.randint(1, 4))
        if rng.random() < 0.15:
            cs = rng.choice(["*", ["*"], ["n", "*"]])
            return "select *", (cs,), lambda ds: rows(ds.select(cs)), lambda rs: [typed(r) for r in rs]
        kind = rng.choice([list, tuple, set])
        act = (lambda ds: rows(ds.select(kind(cs)))) if k == "select many" else (lambda ds: rows(ds[kind(cs)]))
        return k, (cs, kind.__name__), act, lambda rs: [typed({c: r.get(c) for c in cs}) for r in rs]
    if k == "filter":
        name, make, keep = rng.choice(PREDICATES)
        return k, (name,), lambda ds: rows(ds.filter(make())), lambda rs: [typed(r) for r in rs if keep(r)]
    if k == "distinct":
        return k, (), lambda ds: rows(ds.distinct()), lambda rs: dedupe(rs, ())
    if k == "distinct on":
        cs = rng.sample(columns, rng.randint(1, 3))
        return k, (cs,), lambda ds: rows(ds.distinct(*cs)), lambda rs: dedupe(rs, cs)
    if k == "keys":
        return k, (), lambda ds: list(ds.keys()), keys_of
    if k == "keys n":
        n = max(some(), 1)
        return k, (n,), lambda ds: list(ds.keys(n)), lambda rs: keys_of(rs[:n])
    if k == "types":
        n = rng.choice([None, 1, 5, size + 1])
        return k, (n,), lambda ds: ds.types() if n is None else ds.types(n), lambda rs: types_of(rs, 100 if n is None else n)
    if k == "collect":
        c = rng.choice(columns)
        return k, (c,), lambda ds: [typed(v) for v in ds.collect_list(c)], lambda rs: [typed(r[c]) for r in rs if c in r]
    if k == "collect all":
        return k, (), lambda ds: rows(ds.collect_list()), lambda rs: [typed(r) for r in rs]
    if k == "get_items":
        at = [rng.randrange(size) for _ in range(rng.choice([1, 2, 5, 20, 150]))] if size else []
        if rng.random() < 0.1:
            at = []
        return k, (at,), lambda ds: rows(ds.get_items(*at)), lambda rs: [typed(rs[i]) for i in at]
    if k == "sort":
        c, n, d = rng.choice(["n", "t", "id", "never"]), rng.choice([0, 1, 2, 3, size // 3, size, 5000]), rng.random() < 0.5
        return k, (c, n, d), lambda ds: rows(ds.sort_and_take(c, n, d)), lambda rs: sort_rows(rs, c, n, d)
    c = rng.sample(["id", "n", "t"], 2)
    n = some()
    name, make, keep = rng.choice(PREDICATES[:3])
    return (k, (name, c, n), lambda ds: rows(ds.filter(make()).select(c).distinct().take(n)),
            lambda rs: dedupe([{x: r.get(x) for x in c} for r in rs if keep(r)], ())[:n])


__all__ = ["operation", "records", "record", "rows"]
