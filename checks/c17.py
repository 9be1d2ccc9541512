"""
One case is a statement whose FROM clause (top level, or of a subquery) holds a dataset name
made by a grammar of valid names or by mutating one with hostile parts (traversal, globs,
quotes, control characters, look-alike characters, comments), or a dataset read with a list
of valid prefixes. Storage records every path it's asked for. Names which break the rules must
raise with no operation recorded; valid ones must be accepted and only touch their own
folder; whatever happens no path touched may break the rules. Non-trivial when the name
isn't a plain valid one; distinct by statement.
"""

from vf.store import Store, adapters

ASSUMPTIONS = [
    "valid_dataset_prefixes are literal prefixes of the dataset's path, they aren't an access control on where the path leads",
    "names with a dot beside a slash may be refused or not",
]

PARTS = ["a", "ds", "data", "Sales", "x1", "log_2", "my-set", "tests", "A9", "日本", "é", "z_", "q-1"]
HOSTILE = ["..", "//", "--", "../", "/..", "*", "?", "[a]", "{0}", "~", "$HOME", ";", ":", "\\", "\x00", "%2e%2e", "%", "#", "&", "|", "'", '"', "`", "@", "!", "=", "+", "^", "<", ">", "\x1b", "\u202e", "．．", "\u200b", "∕", "/*", "*/", "_..", "..\\", "̈"]
STARTS = ["/", ".", "-", "_", "1", "..", "./", "~", "$", "*", "?", "\\", "9", "٣", "²"]


def valid_name(rng):
    name = rng.choice(PARTS)
    for _ in range(rng.randint(0, 4)):
        name += rng.choice([".", "/", "/", ""]) + rng.choice(PARTS)
    return name


def hostile_name(rng):
    name = valid_name(rng)
    k = rng.random()
    if k < 0.3:
        return rng.choice(STARTS) + name
    if k < 0.4:
        return name + rng.choice(["..", "//", "/../..", "--"])
    for _ in range(rng.choice([1, 1, 2])):
        at = rng.randint(0, len(name))
        name = name[:at] + (rng.choice(HOSTILE) if rng.random() < 0.7 else chr(rng.randint(33, 126))) + name[at:]
    return name


def breaks_rules(name):
    """True, False or None when it's for the library to say"""
    if "--" in name or "/*" in name:
        return None  # these are comments in SQL
    if not name[:1].isalpha() or ".." in name or "//" in name:
        return True
    if any(not (c.isalnum() or c in "./-_") for c in name):
        return True
    if "./" in name or "/." in name or name.endswith((".", "/")):
        return None
    return False


def bad_path(path):
    return not path[:1].isalpha() or ".." in path or "//" in path or "--" in path or any(not (c.isalnum() or c in "./-_") for c in path)


class Watched(Store):
    """keeps every path asked of it"""

    def __init__(self):
        super().__init__()
        self.touched = []

    def list(self, path):
        self.touched.append(str(path).rstrip("/"))
        return super().list(path)

    def get(self, name):
        self.touched.append(str(name))
        return super().get(name)


def wrap(rng, name):
    statement = f"SELECT * FROM {name}"
    if rng.random() < 0.3:
        statement += rng.choice([" WHERE a = 1", " LIMIT 2", " ORDER BY a", "\n"])
    depth = rng.choice([0, 0, 0, 1, 2])
    for _ in range(depth):
        statement = f"SELECT * FROM ({statement})" + rng.choice(["", " LIMIT 3"])
    return statement, depth


def from_clause(ctx, case):
    from mabel import SqlReader
    from mabel.errors import DataNotFoundError

    rng = ctx.rng
    hostile = rng.random() < 0.7
    name = hostile_name(rng) if hostile else valid_name(rng)
    broken = breaks_rules(name)
    folder = name.replace(".", "/")
    store = Watched()
    if broken is False:
        store.put(f"{folder}/a.jsonl", b'{"a": 1}\n')
        store.put(f"{folder}x/d.jsonl", b'{"a": "other"}\n')
        store.put(f"x/{folder}/d.jsonl", b'{"a": "other"}\n')
    for other in ("secret/c.jsonl", "etc/passwd.jsonl", "root.jsonl"):
        store.put(other, b'{"a": "other"}\n')
    statement, depth = wrap(rng, name)
    detail = dict(statement=statement)
    outcome = got = None
    try:
        got = list(SqlReader(statement, inner_reader=adapters(store)[1], partitions=None))
        outcome = "read"
    except DataNotFoundError as err:
        outcome, error = "nothing", err
    except BaseException as err:  # noqa
        outcome, error = "refused", err
    if broken is True:
        if outcome != "refused" or store.touched:
            ctx.violation("a FROM clause which breaks the rules wasn't refused before storage was touched", outcome=outcome, touched=store.touched[:5], **detail)
            return
        ctx.count("refused")
        if depth:
            ctx.count("refused_subqueries")
    elif broken is False:
        if outcome != "read" or [dict(r) for r in got] != [{"a": 1}]:
            ctx.violation("a valid FROM clause wasn't read", outcome=outcome, error=None if outcome == "read" else repr(error), got=str(got)[:200], **detail)
            return
        strange = [p for p in store.touched if not (p + "/").startswith(folder + "/")]
        ctx.check(not strange, "a read touched storage outside of its dataset", touched=strange[:5], **detail)
        ctx.count("accepted")
    bad = [p for p in store.touched if bad_path(p)]
    ctx.check(not bad, "storage was asked for a path which breaks the rules", touched=bad[:5], **detail)
    ctx.count("paths", len(store.touched))
    ctx.seen(statement, nontrivial=broken is not False or depth > 0, sample=dict(outcome=outcome, broken=broken, **detail))


def prefixes(ctx, case):
    from mabel import Reader, SqlReader
    from mabel.data.readers.reader import AccessDenied

    rng = ctx.rng
    datasets = ["sales/eu", "sales/us/old", "sales", "salesforce/a", "Sales/eu", "hr/pay", "hr", "x/sales/eu", "s"]
    store = Watched()
    for d in datasets:
        store.put(f"{d}/a.jsonl", b'{"a": "%s"}\n' % d.encode())
    dataset = rng.choice(datasets)
    allowed = rng.sample(["sales/", "sales", "hr/", "hr/pay", "sales/eu", "Sales", "x/", "nothing", "/sales", "ales", "sales/eu/x"], rng.choice([0, 1, 1, 2, 3]))
    through = rng.choice(["reader", "sql", "sql", "subquery"])
    statement, depth = wrap(rng, dataset.replace("/", rng.choice(["/", "."])))
    if through == "reader":
        call = lambda: Reader(dataset=dataset, partitions=None, inner_reader=adapters(store)[1], valid_dataset_prefixes=allowed)  # noqa
    else:
        call = lambda: SqlReader(statement, partitions=None, inner_reader=adapters(store)[1], valid_dataset_prefixes=allowed)  # noqa
    ok = any(dataset[: len(p)] == p for p in allowed)
    detail = dict(dataset=dataset, allowed=allowed, statement=statement if through != "reader" else None)
    got = None
    try:
        got = [dict(r) for r in call()]
        outcome = "read"
    except AccessDenied:
        outcome = "denied"
    except BaseException as err:  # noqa
        outcome = repr(err)
    if ok:
        if outcome != "read":
            ctx.violation("an allowed dataset wasn't read", outcome=outcome, **detail)
            return
        ctx.check(all(r.get("a") == dataset or r["a"].startswith(dataset + "/") for r in got), "an allowed read returned records of another dataset", got=got, **detail)
        ctx.check(all((p + "/").startswith(dataset + "/") for p in store.touched), "an allowed read touched another dataset", touched=store.touched[:5], **detail)
        ctx.count("allowed")
    else:
        if outcome != "denied" or store.touched:
            ctx.violation("a dataset which isn't allowed wasn't denied before storage was touched", outcome=outcome, got=got, touched=store.touched[:5], **detail)
            return
        ctx.count("denied")
    ctx.seen((dataset, tuple(allowed), through, depth), nontrivial=True, sample=detail)


def run(ctx):
    ctx.minimum = 300
    ctx.deadline(14, 300)
    for case in range(ctx.n(12000, 100000)):
        if not ctx.more():
            break
        (prefixes if case % 4 == 0 else from_clause)(ctx, case)
    for name, least in (("refused", 300), ("refused_subqueries", 80), ("accepted", 200), ("allowed", 80), ("denied", 150), ("paths", 400)):
        ctx.require(name, least)
