"""
One case is a SELECT statement made from a random query: columns, functions, aggregates, AS,
DISTINCT, *, a dataset or (nested) subqueries, WHERE, GROUP BY, HAVING, ORDER BY and LIMIT,
written with random letter case, white space, new lines and comments, and quoted text which
holds keywords. The oracle applies the clauses in SQL order to the records itself; rows which
SQL leaves in any order are compared as multisets. Also: the same query written twice gives
the same answer, and invalid statements raise InvalidSqlError after a bounded number of
steps. Non-trivial when there are rows and something other than SELECT * was asked; distinct
by statement.
"""

import collections
import json
import math
import sys

from checks import c14
from vf import gen
from vf.codec import typed
from vf.store import Store, adapters

ASSUMPTIONS = [
    "functions used by WHERE and ORDER BY are also selected",
    "an aggregate of no rows has no row; SUM may be a Decimal or not (so isn't used with DISTINCT), AVG is compared to 1 part in 10**9",
    "ORDER BY is on one column, of comparable values and missing values (which sort lowest)",
    "aliases don't have the name of a column of the dataset, other than when columns of the results swap their names",
]

KW = ["select", "SELECT", "Select", "sElEcT"]
NAMES = ["abc", "Abc", "potter", "Harry Potter", "rock and roll", "select * from", "a,b", "x(y)", "two  spaces", "it's", "", "日本語", "-- no", "/* no */", "order by n", "limit 3", "limit", "Select", "asc", "group by"]
NAMES += c14.ANY[:12]
COLUMNS = {"uid": "number", "name": "text", "grp": "text", "n": "number", "m": "number", "x": "float", "flag": "bool", "d": "date", "Size": "number", "mixedCase": "text"}


class Many(Exception):
    pass


def make_records(rng):
    out = []
    for i in range(rng.choice([0, 1, 8, 8, 25, 60]) or 1):
        record = {"uid": i}
        for column, kind in COLUMNS.items():
            if column == "uid" or rng.random() < 0.1:
                continue
            if rng.random() < 0.1:
                record[column] = None
            elif kind == "number":
                record[column] = rng.randint(-5, 9)
            elif kind == "float":
                record[column] = rng.choice([0.5, -1.25, 3.0, 100.0, 2.75])
            elif kind == "bool":
                record[column] = rng.random() < 0.5
            elif kind == "date":
                record[column] = rng.choice(c14.DATES)
            elif column in ("grp", "mixedCase"):
                record[column] = rng.choice(["red", "green", "blue", "a,b"])
            else:
                record[column] = rng.choice(NAMES)
        out.append(record)
    return out


def year(v):
    return None if v is None else int(v[:4])


# name, column it takes, rest of the arguments, meaning
FUNCTIONS = [
    ("UPPER", "grp", [], lambda v: str(v).upper()),
    ("LCASE", "name", [], lambda v: str(v).lower()),
    ("YEAR", "d", [], year),
    ("MONTH", "d", [], lambda v: None if v is None else int(v[5:7])),
    ("LEFT", "name", [2], lambda v: str(v)[:2]),
    ("RIGHT", "grp", [1], lambda v: str(v)[-1:]),
    ("ISNONE", "n", [], lambda v: v is None),
    ("STRING", "m", [], lambda v: str(v)),
    ("DOUBLE", "n", [], lambda v: None if v is None else float(v)),
    # of functions
    ("UPPER(LEFT", "name", [3], lambda v: str(v)[:3].upper()),
    ("INTEGER(YEAR", "d", [], year),
]
LITERALS = {"1": ("number", 1), "-2.5": ("float", -2.5), "'two, words'": ("text", "two, words"), '"it\'s"': ("text", "it's"), "TRUE": ("bool", True), "false": ("bool", False), "NULL": ("other", None)}
KINDS = {"YEAR": "number", "MONTH": "number", "DOUBLE": "float", "ISNONE": "bool", "INTEGER(YEAR": "number", "UPPER": "text", "UPPER(LEFT": "text", "LCASE": "text", "RIGHT": "text"}


def called(name, column, args, comma=","):
    inner, _, last = name.rpartition("(")
    text = f"{last}({column}"
    if args:
        text += comma + comma.join(map(str, args))
    return (inner + "(" if inner else "") + text + ")" * (1 + name.count("("))


class Query:
    """a select: where the rows come from and what is done to them"""


def aggregate(name, column, rows):
    if column == "*":
        return len(rows)
    values = [r.get(column) for r in rows if r.get(column) is not None]
    if name == "COUNT":
        return len(values)
    if not values:
        return None
    if name == "SUM":
        return sum(values)
    if name == "AVG":
        return sum(values) / len(values)
    return min(values) if name == "MIN" else max(values)


def simple_condition(rng, columns):
    """columns is {name: kind} - kinds known to the writer of conditions in C14"""
    column = rng.choice(sorted(columns))
    kind = columns[column]
    field = ("field", column)
    k = rng.random()
    if k < 0.12:
        return ("cmp", rng.choice(["IS", "IS NOT"]), field, ("null",))
    if kind == "bool":
        return ("cmp", rng.choice(["=", "!=", "IS"]), field, ("bool", rng.random() < 0.5))
    if kind == "date":
        return ("cmp", rng.choice(["=", "<", ">", "<=", ">=", "!="]), field, ("date", rng.choice(c14.DATES)))
    if kind == "text":
        if k < 0.3:
            return ("cmp", rng.choice(["LIKE", "NOT LIKE"]), field, ("text", rng.choice(["%a%", "r%", "_otter", "% and %", "%(%", "%"])))
        pool = [n for n in NAMES if not ("'" in n and '"' in n)] + ["red", "green", "RED"]
        if k < 0.45:
            return ("cmp", "IN", field, ("list", [("text", rng.choice(pool)) for _ in range(rng.randint(1, 3))]))
        return ("cmp", rng.choice(["=", "!=", "<", ">"]), field, ("text", rng.choice(pool)))
    literal = ("number", rng.choice([0, 1, 2, 3, 5, -2, 2.5, 100]))
    if k < 0.25:
        return ("cmp", "IN", field, ("list", [("number", rng.randint(-3, 6)) for _ in range(3)]))
    return ("cmp", rng.choice(["=", "!=", "<", ">", "<=", ">="]), field, literal)


def condition(rng, columns, depth):
    if depth == 0 or rng.random() < 0.5:
        return simple_condition(rng, columns)
    if rng.random() < 0.2:
        return ("not", condition(rng, columns, depth - 1))
    return (rng.choice(["and", "or"]), condition(rng, columns, depth - 1), condition(rng, columns, depth - 1))


def make_query(rng, source, columns, depth):
    """columns: what the source has {name: kind}, sets q.columns to what comes out"""
    q = Query()
    if depth and rng.random() < 0.4:
        q.source = make_query(rng, source, columns, depth - 1)
        columns = q.source.columns
        if not columns:
            return make_query(rng, source, dict(COLUMNS), 0)
    else:
        q.source = source
    q.distinct = q.descending = q.swapped = False
    q.where = q.group = q.having = q.order = q.limit = None
    q.columns = {}
    q.computed = {}  # what GROUP BY and aggregates use which isn't a column
    q.items = []  # (kind, name of value, arguments, alias)
    available = dict(columns)
    usable = [f for f in FUNCTIONS if columns.get(f[1]) == COLUMNS.get(f[1])]

    def alias():
        return f"al_{rng.choice('abc')}{depth}{len(q.items)}" if rng.random() < 0.3 else None

    shape = rng.choice(["star", "plain", "plain", "group", "group", "total"])
    if shape in ("group", "total"):
        groupable = [c for c in columns if columns[c] in ("text", "number", "bool", "date") and c != "uid"]
        if shape == "group" and not groupable:
            shape = "total"
        q.group = rng.sample(groupable, min(len(groupable), rng.choice([1, 1, 2]))) if shape == "group" else []
        for i, column in enumerate(q.group):
            quoted = f"`{column}`"
            if rng.random() < 0.15:
                q.computed[quoted] = ("", column, [], lambda v: v)
                q.group[i] = quoted
            if rng.random() < 0.8:
                q.items.append(("column", q.group[i], None, alias()))
        if shape == "group" and usable and rng.random() < 0.3:
            f, given = rng.choice(usable), alias()
            text = called(*f[:3])
            if given and rng.random() < 0.5:
                text = given
            q.group.append(text)
            q.computed[text] = f
            if text == given or rng.random() < 0.7:
                q.items.append(("grouped", text, f, given))
        numeric = [c for c in columns if columns[c] in ("number", "float")]
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if q.group and q.items else rng.choice([1, 1, 2, 3])):
            name = rng.choice(["COUNT", "SUM", "MIN", "MAX", "AVG"])
            if name == "COUNT":
                column = rng.choice(["*", rng.choice(sorted(columns))])
            elif name in ("MIN", "MAX"):
                # of one kind of value
                column = rng.choice([c for c in columns if columns[c] != "bool"] or ["*"])
            else:
                column = rng.choice(numeric) if numeric else "*"
            if column == "*":
                name = "COUNT"
            elif rng.random() < 0.1:
                q.computed[f"`{column}`"] = ("", column, [], lambda v: v)
                column = f"`{column}`"
            fitting = [f for f in usable if f[0] in KINDS or name == "COUNT"]
            fitting = [f for f in fitting if name in ("COUNT", "MIN", "MAX") or KINDS[f[0]] in ("number", "float")]
            if fitting and rng.random() < 0.15:
                f = rng.choice(fitting)
                column = called(*f[:3])
                q.computed[column] = f
            q.items.append(("aggregate", f"{name}({column})", (name, column), alias()))
        out_kinds = {}
        for kind, name, args, _ in q.items:
            if kind == "column":
                out_kinds[name] = columns.get(name, "other")
            elif kind == "grouped":
                out_kinds[name] = "other" if "(" in name else KINDS.get(args[0], "other")
            elif args[1] in q.computed:
                out_kinds[name] = "other"
            else:
                out_kinds[name] = "number" if args[0] == "COUNT" else "sum" if args[0] in ("SUM", "AVG") else columns[args[1]]
    else:
        literals = {}
        if shape == "star":
            q.items.append(("star", "*", None, None))
        for _ in range(rng.choice([0, 1]) if shape == "star" else rng.randint(1, 4)):
            if usable and rng.random() < 0.3:
                name, column, args, meaning = rng.choice(usable)
                text = called(name, column, args)
                given = alias()
                q.items.append(("function", text, (name, column, args, meaning), given))
                if not given:
                    available[text] = KINDS.get(name, "other")
            elif shape == "plain" and rng.random() < 0.15:
                text, kind = rng.choice(list(LITERALS.items()))
                q.items.append(("literal", text, kind[1], alias()))
                literals[text] = kind[0]
            else:
                q.items.append(("column", rng.choice(sorted(columns)), None, alias()))
        out_kinds = {**available, **literals}
    if rng.random() < 0.5:
        where_on = {c: k for c, k in available.items() if k in ("number", "float", "text", "bool", "date")}
        if where_on:
            q.where = condition(rng, where_on, 2)
    if q.group is not None and rng.random() < 0.4:
        having_on = {n: k for n, k in out_kinds.items() if k in ("number", "float", "text", "bool", "date")}
        having_on.update({n: "number" for n, k in out_kinds.items() if k == "sum"})
        if having_on:
            q.having = condition(rng, having_on, 1)
    # columns which take each other's names
    plain = [i for i, item in enumerate(q.items) if item[0] == "column"]
    if shape != "star" and len({q.items[i][1] for i in plain}) == len(plain) > 1 and rng.random() < 0.25:
        turned = plain[1:] + plain[:1]
        for i, other in zip(plain, [q.items[j][1] for j in turned]):
            q.items[i] = (*q.items[i][:3], other)
        q.swapped = True
    # sums may be of different types, which are then distinct
    q.distinct = rng.random() < 0.2 and not any(k == "aggregate" and a[0] in ("SUM", "AVG") for k, _, a, _ in q.items)
    for kind, name, args, given in q.items:
        if kind == "star":
            q.columns.update(columns)
        else:
            q.columns[given or name] = out_kinds[name] if name in out_kinds else "other"
    if rng.random() < 0.4:
        names = [n for n, k in q.columns.items() if k not in ("bool",) and "(" not in n and "`" not in n and n not in LITERALS]
        if q.group is None and not q.distinct:
            names += [c for c in columns if columns[c] not in ("bool", "sum", "other")]
        if names:
            q.order = rng.choice(names)
            q.descending = rng.random() < 0.5
    if rng.random() < 0.3:
        q.limit = rng.choice([0, 1, 2, 5, 100])
    # columns with names of expressions can't be used by the outer query
    q.columns = {n: k for n, k in q.columns.items() if "(" not in n and "`" not in n and n not in LITERALS and k in ("number", "float", "text", "bool", "date")}
    return q


class Skip(Exception):
    """SQL doesn't say which of several answers is right, for use as a source"""


def order_key(column):
    return lambda r: (r.get(column) is not None, r.get(column)) if r.get(column) is not None else (False, 0)


def answer(q, records, top=True):
    """(rows before the limit, are they in a known order) or with the limit applied"""
    if isinstance(q.source, Query):
        rows, known = answer(q.source, records, False)
    else:
        rows, known = [dict(r) for r in records], True
    evaluated = []
    for row in rows:
        row = dict(row)
        extra = {}
        for kind, name, args, given in q.items:
            if kind == "function":
                extra[given or name] = args[3](row.get(args[1]))
        for name, f in q.computed.items():
            extra[name] = f[3](row.get(f[1]))
        row.update(extra)
        evaluated.append(row)
    rows = evaluated
    if q.where:
        rows = [r for r in rows if c14.truth(q.where, r)]
    if q.group is not None:
        groups = collections.OrderedDict()
        for r in rows:
            groups.setdefault(json.dumps([typed(r.get(c)) for c in q.group]), []).append(r)
        new = []
        for members in groups.values():
            row = {c: members[0].get(c) for c in q.group}
            for kind, name, args, _ in q.items:
                if kind == "aggregate":
                    row[name] = aggregate(args[0], args[1], members)
            new.append(row)
        rows, known = new, False
    if q.having:
        rows = [r for r in rows if c14.truth(q.having, r)]
    out = []
    for r in rows:
        row = {}
        for kind, name, args, given in q.items:
            if kind == "star":
                row.update(r)
            elif kind == "literal":
                row[given or name] = args
            elif kind == "function":
                row[given or name] = r.get(given or name)
            else:
                row[given or name] = r.get(name)
        out.append((row, r))
    if q.distinct:
        seen, kept = set(), []
        for row, r in out:
            key = json.dumps(typed(dict(sorted(row.items()))))
            if key not in seen:
                seen.add(key)
                kept.append((row, r))
        out = kept
    if q.order:
        def by(pair):
            row, r = pair
            return order_key(q.order)(row if q.order in row else r)
        out.sort(key=by, reverse=q.descending)
    q.keys = [by(p)[:2] for p in out] if q.order else None
    rows = [row for row, _ in out]
    if q.limit is not None:
        if not known and not top:
            raise Skip()
        if top:
            return rows, known
        rows = rows[: q.limit]
    if not top and q.order and not known:
        known = len(set(map(repr, q.keys))) == len(q.keys)
    return rows, known


# --- writing
def space(rng):
    return rng.choice([" ", " ", " ", "  ", "\n", "\t", " /* a comment */ ", " -- it's; one FROM x\n", "/* GROUP BY */", "\r\n"])


def kw(rng, words):
    return " ".join("".join(rng.choice([c.upper(), c.lower()]) for c in w) if rng.random() < 0.5 else w for w in words.split(" "))


def write_item(rng, item):
    kind, name, args, given = item
    if kind == "aggregate":
        text = f"{kw(rng, args[0])}({args[1]})"
    elif kind == "function":
        comma = rng.choice([",", ", "])
        text = called(kw(rng, args[0]), args[1], args[2], comma)
    elif kind == "grouped":
        text = called(kw(rng, args[0]), args[1], args[2], rng.choice([",", ", "]))
    else:
        text = name
    if given:
        text += f" {kw(rng, 'AS')} {given}"
    return text


def write_group(rng, q, name):
    if "(" not in name:
        return name
    f = q.computed[name]
    return called(kw(rng, f[0]), f[1], f[2], rng.choice([",", ", "]))


def write(rng, q, dataset):
    s = lambda: space(rng)  # noqa
    text = kw(rng, "SELECT") + s()
    if q.distinct:
        text += kw(rng, "DISTINCT") + s()
    text += rng.choice([", ", ",", ",\n  "]).join(write_item(rng, i) for i in q.items)
    text += s() + kw(rng, "FROM") + s()
    if isinstance(q.source, Query):
        text += "(" + rng.choice(["", " "]) + write(rng, q.source, dataset) + rng.choice(["", " ", "\n"]) + ")"
    else:
        text += rng.choice([dataset, dataset.replace("/", ".")])
    if q.where:
        text += s() + kw(rng, "WHERE") + s() + c14.write(rng, q.where)
    if q.group:
        text += s() + kw(rng, "GROUP BY") + s() + rng.choice([", ", ","]).join(write_group(rng, q, name) for name in q.group)
    if q.having:
        text += s() + kw(rng, "HAVING") + s() + c14.write(rng, q.having)
    if q.order:
        text += s() + kw(rng, "ORDER BY") + s() + (f"`{q.order}`" if rng.random() < 0.15 else q.order) + rng.choice(["", s() + kw(rng, "ASC")] if not q.descending else [s() + kw(rng, "DESC")])
    if q.limit is not None:
        text += s() + kw(rng, "LIMIT") + s() + str(q.limit)
    return text


def plain_value(v):
    if v.__class__.__name__ == "Decimal":
        return float(v)
    return v


def near(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    return math.isclose(float(a), float(b), rel_tol=1e-9, abs_tol=1e-9)


def row_key(row):
    # with * a missing value may be left out or None
    return json.dumps([[k, ("n", float(f"{float(v):.9g}") + 0.0) if isinstance(v, (int, float)) and not isinstance(v, bool) else typed(v)] for k, v in sorted(row.items()) if v is not None], default=str)


def run_query(ctx, statement, store, storage):
    from mabel import SqlReader

    def go():
        result = SqlReader(statement, inner_reader=adapters(store)[1], partitions=None, **storage)
        return [{k: plain_value(v) for k, v in (r if isinstance(r, dict) else r.as_dict()).items()} for r in result]

    return ctx.guard("a valid SQL statement", go, detail=dict(statement=statement))


def has_star(q):
    return any(i[0] == "star" for i in q.items)


def one(ctx, case):
    from mabel.data.internals.dictset import STORAGE_CLASS

    rng = ctx.rng
    records = make_records(rng)
    store = Store()
    lines = [json.dumps(r).encode() for r in records]
    at = rng.randint(0, len(lines))
    for name, part in (("a", lines[:at]), ("b", lines[at:])):
        store.put(f"ds/sql/{name}.jsonl", b"\n".join(part))
    for _ in range(6):
        q = make_query(rng, "ds/sql", dict(COLUMNS), rng.choice([0, 0, 1, 2]))
        try:
            rows, known = answer(q, records)
        except Skip:
            continue
        statement = write(rng, q, "ds/sql")
        storage = rng.choice([{}, {}, {"persistence": STORAGE_CLASS.MEMORY}, {"persistence": STORAGE_CLASS.COMPRESSED_MEMORY}])
        ok, got = run_query(ctx, statement, store, storage)
        if not ok:
            return
        limited = len(rows) if q.limit is None else min(q.limit, len(rows))
        detail = dict(statement=statement, expected_rows=limited, got_rows=len(got), storage=str(storage))
        columns = None if has_star(q) else [given or name for _, name, _, given in q.items]

        def fail(what, **more):
            ctx.violation(what, expected=str(rows[:6])[:700], got=str(got[:6])[:700], records=str(records[:4])[:500], **more, **detail)

        if len(got) != limited:
            fail("a statement returned the wrong number of rows")
            return
        if columns is not None and any(sorted(r) != sorted(set(columns)) for r in got):
            fail("a statement returned the wrong columns", columns=columns)
            return
        expected = [row_key(r) for r in rows]
        mine = [row_key(r) for r in got]
        if known:
            if mine != expected[:limited]:
                at = next((i for i in range(limited) if mine[i] != expected[i]), None)
                fail("a statement returned the wrong rows, or in the wrong order", first=at)
                return
        else:
            spare = collections.Counter(expected)
            spare.subtract(mine)
            if any(v < 0 for v in spare.values()):
                fail("a statement returned a row which isn't in the answer")
                return
            if q.order:
                # the order of rows which tie isn't known
                value = {}
                for key, row in zip(q.keys, rows):
                    value.setdefault(row_key(row), []).append(key)
                if all(len(set(map(repr, v))) == 1 for v in value.values()):
                    order = [value[m][0] for m in mine]
                    if [repr(o) for o in order] != [repr(k) for k in q.keys[:limited]]:
                        fail("a statement returned rows in the wrong order")
                        return
                    ctx.count("unknown_but_ordered")
        # the same query, written another way
        if known and rng.random() < 0.3:
            again = write(rng, q, "ds/sql")
            ok, other = run_query(ctx, again, store, {})
            if not ok:
                return
            if [row_key(r) for r in other] != mine:
                ctx.violation("the same statement written another way gives another answer", one=statement, two=again, first=str(got[:5]), second=str(other[:5]))
                return
            ctx.count("rewritten")
        for name, on in (("where", q.where), ("group", q.group), ("having", q.having), ("order", q.order), ("distinct", q.distinct), ("subquery", isinstance(q.source, Query)), ("limit", q.limit is not None), ("alias", any(i[3] for i in q.items)), ("swapped", q.swapped), ("function", any(i[0] == "function" for i in q.items))):
            if on:
                ctx.count(name)
        ctx.count("rows", len(got))
        ctx.seen(statement, nontrivial=bool(got) and not (has_star(q) and not q.where), sample=dict(rows=len(got), **detail))


BROKEN = [
    "", "   ", "SELECT", "FROM ds.sql", "SELECT *", "SELECT * FROM", "SELECT * FROM ", "hello", "UPDATE ds.sql", "SELECT name", "hello SELECT * FROM ds.sql",
    "SELECT n FROM ds.sql ORDER BY n DESC, m", "SELECT * FROM ds.sql DISTINCT", "SELECT n FROM ds.sql WHERE n = 1 ASC", "SELECT n, DISTINCT m FROM ds.sql",
    "WHERE n = 1", "GROUP BY n", "DELETE FROM ds.sql", "INSERT INTO ds.sql SELECT * FROM ds.sql", "SELECT * WHERE n = 1", "SELECT * FROM (SELECT *)", "SELECT * FROM (SELECT n",
    "SELECT * FROM (FROM ds.sql)", "-- SELECT * FROM ds.sql", "/* SELECT * FROM ds.sql */", "SELECT * /* FROM ds.sql */", "SELECT * -- FROM ds.sql", "FROM ds.sql WHERE n = 'SELECT *'", "SELECT 'FROM ds.sql'",
]


WELL_FORMED = [
    "SELECT * FROM ds.sql", "SELECT n , m FROM ds.sql", "SELECT UPPER ( n ) FROM ds.sql", "SELECT COUNT ( * ) FROM ds.sql", "SELECT n AS `a)` FROM ds.sql",
    "SELECT * FROM ( SELECT * FROM ds.sql )", "SELECT * FROM ( SELECT n FROM ( SELECT * FROM ds.sql ) )", "SELECT '(' , \")\" FROM ds.sql",
]


def steps(func, limit=300000):
    """run func, give up when it takes more than a number of lines of code"""
    taken = [0]

    def trace(frame, event, arg):
        taken[0] += 1
        if taken[0] > limit:
            raise Many()
        return trace

    before = sys.gettrace()
    sys.settrace(trace)
    try:
        return func()
    finally:
        sys.settrace(before)


def invalid(ctx):
    from mabel import SqlReader
    from mabel.data.readers.internals.sql_reader import InvalidSqlError

    rng = ctx.rng
    store = Store()
    store.put("ds/sql/a.jsonl", b'{"n": 1, "m": 2}\n')
    inner = adapters(store)[1]
    ungrouped = []
    for _ in range(40):
        columns = rng.sample(["n", "m", "x", "name", "grp"], 3)
        by, other = columns[:1], columns[1]
        items = [f"COUNT({rng.choice(['*'] + columns)})", other] + by[: rng.randint(0, 1)]
        rng.shuffle(items)
        ungrouped.append(f"{kw(rng, 'SELECT')} {', '.join(items)} FROM ds.sql" + rng.choice([f" GROUP BY {by[0]}", "", f" WHERE n > 0 GROUP BY {by[0]}"]))
    # names which could lead elsewhere
    names = []
    for _ in range(250):
        name = rng.choice(["ds/sql", "ds.sql", "data/sub-set/a_b", "d"])
        at = rng.randint(1, len(name))
        bad = rng.choice(["..", "//", "/../", "...", "///", "$", "?", "~", "\\", "%", "&", "#", "@", "!", "|", ":", "^", "+"])
        names.append(rng.choice([name[:at] + bad + name[at:], name + bad, rng.choice(["/", ".", "-", "_", "1", "0", "../", "./", "~/", "$"]) + name]))
    named = [f"{kw(rng, 'SELECT')} {rng.choice(['*', 'n', 'COUNT(*)'])} {kw(rng, 'FROM')} {name}" + rng.choice(["", " WHERE n = 1", " LIMIT 1"]) for name in names]
    named += [f"SELECT * FROM ({statement})" for statement in named[:10]]
    for _ in range(20):
        function = rng.choice(["UPPER", "LEFT", "STRING"])
        column = rng.choice(["n", "m"])
        ungrouped.append(f"SELECT COUNT(*), {function}({column}{', 1' if function == 'LEFT' else ''}) FROM ds.sql" + rng.choice(["", " GROUP BY n", " GROUP BY n, m"]))
    # parentheses which aren't closed or opened, clauses which are there twice
    unmatched = []
    for _ in range(200):
        pieces = rng.choice(WELL_FORMED).split(" ")
        k = rng.random()
        if k < 0.7:
            at = rng.randint(1, len(pieces))
            pieces.insert(at, rng.choice("()"))
        elif k < 0.9:
            pieces += rng.choice([["WHERE", "n", "=", "1", "where", "m", "=", "2"], ["LIMIT", "1", "LIMIT", "2"], ["SELECT", "m"], ["FROM", "ds.sql"], ["order", "by", "n", "ORDER", "BY", "m"], ["GROUP", "BY", "n", "group", "by", "n"]])
        else:
            pieces += ["LIMIT", rng.choice(["x", "-1", "1.5", "'1'", "1,2", "TRUE", "n", "²", "--1", "1e3", "0x1", ""])]
        unmatched.append(" ".join(pieces))
    for statement in BROKEN + named + ungrouped + unmatched:
        before = len(store.events)
        try:
            steps(lambda: list(SqlReader(statement, inner_reader=inner, partitions=None)))
            ctx.violation("an invalid statement was accepted", statement=statement)
        except InvalidSqlError:
            ctx.count("refused")
        except Many:
            ctx.violation("an invalid statement is parsed for ever", statement=statement)
        except BaseException as err:  # noqa
            ctx.violation("an invalid statement raised something other than InvalidSqlError", statement=statement, error=repr(err))
        if statement not in ungrouped:
            ctx.check(len(store.events) == before, "an invalid statement touched storage", statement=statement)
        ctx.seen(("invalid", statement))


def large(ctx):
    """more rows than anything in between would like to hold"""
    from mabel.data.internals.dictset import STORAGE_CLASS

    rng = ctx.rng
    size = rng.randint(10_050, 12_000)
    rows = [dict(k=i, v=(i * 7919) % 10007, w=rng.choice("abc")) for i in rng.sample(range(size), size)]
    store = Store()
    at = rng.randint(0, size)
    for name, part in (("a", rows[:at]), ("b", rows[at:])):
        store.put(f"ds/sql/{name}.jsonl", b"\n".join(json.dumps(r).encode() for r in part))
    up = sorted(rows, key=lambda r: r["k"])
    limit = rng.randint(10_010, size)
    cases = [
        ("SELECT k FROM ds.sql ORDER BY k", [dict(k=r["k"]) for r in up]),
        ("SELECT k, w FROM ds.sql ORDER BY k DESC", [dict(k=r["k"], w=r["w"]) for r in reversed(up)]),
        (f"SELECT k FROM ds.sql ORDER BY k LIMIT {limit}", [dict(k=r["k"]) for r in up[:limit]]),
        ("SELECT DISTINCT k FROM ds.sql ORDER BY k", [dict(k=r["k"]) for r in up]),
        ("SELECT `k` FROM ds.sql ORDER BY `k`", [{"`k`": r["k"]} for r in up]),
        ("SELECT w, `k` FROM ds.sql ORDER BY k DESC", [{"w": r["w"], "`k`": r["k"]} for r in reversed(up)]),
        ("SELECT w FROM ds.sql ORDER BY `k` DESC", [{"w": r["w"]} for r in reversed(up)]),
        ("SELECT DISTINCT `k` FROM ds.sql ORDER BY `k`", [{"`k`": r["k"]} for r in up]),
        ("SELECT DISTINCT v FROM ds.sql", None),
        ("SELECT k, COUNT(*) AS many FROM ds.sql GROUP BY k ORDER BY k DESC", [dict(k=r["k"], many=1) for r in reversed(up)]),
        ("SELECT k FROM (SELECT k, v FROM ds.sql ORDER BY v) ORDER BY k", [dict(k=r["k"]) for r in up]),
        ("SELECT COUNT(*) AS many FROM (SELECT k FROM ds.sql ORDER BY v)", [dict(many=size)]),
    ]
    for statement, expected in cases:
        ok, got = run_query(ctx, statement, store, rng.choice([{}, {"persistence": STORAGE_CLASS.MEMORY}]))
        if not ok:
            return
        got = [{k: int(v) if isinstance(v, float) else v for k, v in r.items()} for r in got]
        if expected is None:
            seen, expected = set(), []
            for r in rows:
                if r["v"] not in seen:
                    seen.add(r["v"])
                    expected.append(dict(v=r["v"]))
        ctx.check(len(got) == len(expected), "a statement over many rows lost or made rows", statement=statement, expected=len(expected), got=len(got))
        ctx.check(got == expected, "a statement over many rows returned the wrong rows, or in the wrong order", statement=statement, expected=expected[:3], got=got[:3])
        ctx.count("many_rows", len(got))
        ctx.seen(("large", statement))


ODD = ["it's", "a--b", "say \"hi\"", "/* c */", "group by", "select", "a,b", "f(x)", ")", "(", "x  y", "AND", "1", "TRUE", "NULL", "count", "MAX", "a.b", "=", "from ds.sql", "as", "2020-01-01", "not", "%", "-- x", "é"]


def odd_names(ctx):
    """columns whose names only can be used when they're quoted"""
    rng = ctx.rng
    a = rng.choice(ODD) if rng.random() < 0.7 else gen.anything(rng, 12, unprintable=False).replace("`", "").replace("*", "") or "'"
    b = rng.choice([n for n in ODD if n != a])
    rows = []
    for i in range(rng.choice([1, 5, 12])):
        row = {"uid": i, a: rng.randint(0, 4), b: rng.choice(["red", "green", "it's", "--"])}
        rows.append(dict(rng.sample(list(row.items()), 3)))
    store = Store()
    store.put("ds/sql/a.jsonl", b"\n".join(json.dumps(r).encode() for r in rows))
    x, y = f"`{a}`", f"`{b}`"
    groups, pairs = {}, {}
    for r in rows:
        groups[r[a]] = groups.get(r[a], 0) + 1
        pairs.setdefault(r[b], []).append(r[a])
    n = rng.randint(0, 4)
    text = rng.choice(["red", "it's", "--", "blue"])
    cases = [
        (f"SELECT {x} FROM ds.sql", [{x: r[a]} for r in rows]),
        (f"SELECT {x}, {y} AS al FROM ds.sql", [{x: r[a], "al": r[b]} for r in rows]),
        (f"SELECT uid FROM ds.sql WHERE {x} = {n}", [{"uid": r["uid"]} for r in rows if r[a] == n]),
        (f'SELECT uid FROM ds.sql WHERE {y} = "{text}" AND NOT {x} > {n}', [{"uid": r["uid"]} for r in rows if r[b] == text and not r[a] > n]),
        (f"SELECT uid, UPPER({y}) AS al FROM ds.sql", [{"uid": r["uid"], "al": r[b].upper()} for r in rows]),
        (f"SELECT UPPER({y}) FROM ds.sql", [{f"UPPER({y})": r[b].upper()} for r in rows]),
        (f"SELECT {x} FROM ds.sql ORDER BY {x} DESC", [{x: v} for v in sorted((r[a] for r in rows), reverse=True)]),
        (f"SELECT DISTINCT {x} FROM ds.sql", [{x: v} for v in groups]),
        (f"SELECT {x}, COUNT(*) FROM ds.sql GROUP BY {x}", [{x: v, "COUNT(*)": c} for v, c in groups.items()]),
        (f"SELECT COUNT(*) AS al FROM ds.sql GROUP BY {x}", [{"al": c} for c in groups.values()]),
        (f"SELECT {y} AS al, MAX({x}) FROM ds.sql GROUP BY {y}", [{"al": v, f"MAX({x})": max(found)} for v, found in pairs.items()]),
        (f"SELECT SUM({x}) AS al FROM ds.sql", [{"al": sum(r[a] for r in rows)}]),
        (f"SELECT {x} FROM (SELECT * FROM ds.sql WHERE {x} >= {n})", [{x: r[a]} for r in rows if r[a] >= n]),
    ]
    for statement, expected in rng.sample(cases, 6):
        statement += rng.choice(["", " -- it's", " /* `a` \" */"])
        ok, got = run_query(ctx, statement, store, {})
        if not ok:
            return
        got = [{k: plain_value(v) for k, v in dict(r).items()} for r in got]
        key = lambda r: json.dumps(r, sort_keys=True)  # noqa
        if " GROUP BY " in statement:
            got, expected = sorted(got, key=key), sorted(expected, key=key)
        ctx.check(list(map(key, got)) == list(map(key, expected)) or got == expected, "a statement with quoted names has the wrong answer", statement=statement, expected=expected[:5], got=got[:5])
        ctx.count("odd_names")
        ctx.seen(("odd", statement, len(rows)))


def run(ctx):
    ctx.minimum = 300
    ctx.deadline(18, 420)
    invalid(ctx)
    for _ in range(ctx.n(1, 8)):
        large(ctx)
    for _ in range(ctx.n(40, 2000)):
        odd_names(ctx)
    for case in range(ctx.n(700, 20000)):
        if not ctx.more():
            break
        one(ctx, case)
    for name in ("where", "group", "having", "order", "distinct", "subquery", "limit", "alias", "function", "rewritten"):
        ctx.require(name, 40)
    ctx.require("refused", 30)
    ctx.require("odd_names", 40)
    ctx.require("many_rows", 30000)
