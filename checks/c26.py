"""
One case is a list of select items - functions made from random trees (each function, arguments
from columns, literals and other functions), in any letter case, with and without AS, next to
plain columns, literals and * - and a list of records. The oracle evaluates the trees with
functions of its own. The items are asked of one Evaluator (rows in two orders, between rows of
other Evaluators), of a Reader's select and of SQL; RANDOM and NOW are judged by range. Non-trivial
when a function was given a column; distinct by the text of the items and records.
"""

import datetime
import hashlib
import json
import math

from vf import gen
from vf.codec import typed
from vf.store import Store, adapters

ASSUMPTIONS = [
    "arguments are of the type the function is for, or are numbers, or booleans, where it is for text; None is given to the date, ISNONE, INTEGER, TRUNC and DOUBLE functions only",
    "positions and lengths aren't negative, MID counts from zero, ROUND is to even, BETWEEN excludes its bounds (as they are tested or written)",
    "BOOLEAN is given booleans or 'true' or 'false'",
    "text literals which read as dates are only given to date functions",
    "AS names the result of a function; columns called like a function, or holding a dot, are quoted",
]

TEXTS = ["abc", "Harry Potter", " padded ", "", "straße", "ÀÉ", "日本語", "a,b", "it's", "(x)", "as is", "x AS y", "12", "UPPER", "a\nb", "true", "null", "\tpadded\n", "\u00a0nbsp ", "trailing\r\n"]
LITERALS = ["abc", "", " ", "a, b", "(x)", "x AS y", "it is", "f(a,b)", ")", "(", ",", "日本", "a'b", 'say "x"', "AS", "UPPER(t)", "*", "select", "  two  "]
NUMERIC = ["12", "-7", "3.75", "1e3", "0", " 5 ", "9007199254740993"]
INTS = [0, 1, 2, 3, 5, 12, -4, 100, 2**53 + 1, -(2**60)]
FLOATS = [0.0, 1.5, -2.5, 2.675, 3.14159, 1e10, -0.4, 0.5, 99.99]
DATES = ["2021-01-05", "2020-02-29T10:30:45", "1999-12-31 23:59:59", "2000-01-01T00:00", "2024-12-30", "2016-01-03T12:00:01", "2021-07-01T23:59:59"]
MOMENTS = [datetime.datetime(2021, 3, 31, 23, 59, 59, 999999), datetime.datetime(2022, 10, 1, 0, 0, 0, 1), datetime.datetime(1970, 1, 1), datetime.datetime(2024, 2, 29, 12, 30, 1, 500000)]


def moment(text):
    if text is None:
        return None
    if isinstance(text, datetime.datetime):
        return text
    if isinstance(text, datetime.date):
        return datetime.datetime(text.year, text.month, text.day)
    return datetime.datetime.fromisoformat(text)


def whole(v):
    if v is None:
        return None
    if isinstance(v, int):
        return int(v)
    try:
        return int(str(v))
    except ValueError:
        return math.trunc(float(v))


def add_days(d, n):
    if d is None:
        return None
    if isinstance(d, str):
        d = moment(d)
    return d + datetime.timedelta(days=n)


def text_of(v):
    if isinstance(v, (list, tuple, set)):
        return ", ".join(str(x) for x in v)
    if isinstance(v, dict):
        return "\\" + json.dumps(v, separators=(",", ":"), ensure_ascii=False) + "\\"
    return str(v)


def city(v):
    from orso.cityhash import CityHash64

    return "%X" % CityHash64(str(v))


def part(name):
    return lambda d: None if d is None else getattr(moment(d), name)


# name: (result, arguments, what it means)
FUNCTIONS = {
    "YEAR": ("int", ["date"], part("year")),
    "MONTH": ("int", ["date"], part("month")),
    "DAY": ("int", ["date"], part("day")),
    "HOUR": ("int", ["date"], part("hour")),
    "MINUTE": ("int", ["date"], part("minute")),
    "SECOND": ("int", ["date"], part("second")),
    "QUARTER": ("int", ["date"], lambda d: None if d is None else (moment(d).month + 2) // 3),
    "WEEK": ("int", ["date"], lambda d: None if d is None else moment(d).isocalendar()[1]),
    "DATE": ("date", ["date"], lambda d: None if d is None else moment(d).date()),
    "TIME": ("time", ["date"], lambda d: None if d is None else moment(d).time()),
    "ADDDAYS": ("date", ["date", "days"], add_days),
    "DAYSDIFF": ("int", ["date", "date"], lambda a, b: None if a is None or b is None else math.floor((moment(b) - moment(a)).total_seconds() / 86400)),
    "UCASE": ("text", ["words"], lambda x: str(x).upper()),
    "UPPER": ("text", ["words"], lambda x: str(x).upper()),
    "LCASE": ("text", ["words"], lambda x: str(x).lower()),
    "LOWER": ("text", ["words"], lambda x: str(x).lower()),
    "TRIM": ("text", ["words"], lambda x: str(x).strip()),
    "LEN": ("int", ["textlist"], len),
    "STRING": ("text", ["any"], text_of),
    "LEFT": ("text", ["words", "size"], lambda x, n: "".join(c for i, c in enumerate(str(x)) if i < n)),
    "RIGHT": ("text", ["words", "size"], lambda x, n: "".join(c for i, c in enumerate(str(x)) if i >= len(str(x)) - n)),
    "MID": ("text", ["words", "size", "size"], lambda x, a, n: "".join(c for i, c in enumerate(str(x)) if a <= i < a + n)),
    "CONCAT": ("text", ["some"], lambda *xs: text_of(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple, set)) else "".join(str(x) for x in xs)),
    "ROUND": ("number", ["number", "places?"], lambda x, *n: round(x, *n)),
    "TRUNC": ("int", ["numeric"], whole),
    "INTEGER": ("int", ["numeric"], whole),
    "DOUBLE": ("float", ["numeric"], lambda x: None if x is None else float(x)),
    "BOOLEAN": ("bool", ["bool"], lambda x: str(x).lower() == "true"),
    "ISNONE": ("bool", ["any"], lambda x: x is None),
    "HASH": ("text", ["any"], city),
    "MD5": ("text", ["any"], lambda x: hashlib.md5(str(x).encode()).hexdigest()),
    "BETWEEN": ("bool", ["ordered"], lambda v, a, b: a < v and v < b),
    "SORT": ("list", ["list"], lambda x: sorted(x)),
}
COLUMNS = {"t": "text", "title": "text", "Title": "text", "n": "int", "f": "float", "k": "size", "when": "date", "until": "date", "maybe": "date", "numtext": "numeric", "gap": "numeric", "flag": "bool", "flagtext": "bool", "l": "list", "nums": "list", "d": "dict", "gone": "date", "with space": "text", "year": "int"}
QUOTED = {"with space", "year"}
NULLABLE = {"maybe", "gap", "gone"}
ACCEPTS = {
    "text": ["text"], "date": ["date"], "number": ["int", "float", "number"], "numeric": ["int", "float", "numeric", "number"], "bool": ["bool"], "list": ["list"],
    "words": ["text", "text", "text", "int", "float", "bool", "numeric"], "textlist": ["text", "list", "dict"], "any": ["text", "int", "float", "list", "dict", "bool", "date", "numeric"], "some": ["text", "int", "float", "bool", "numeric"],
}


def make_record(rng, i, jsonable):
    date = lambda: rng.choice(DATES) if jsonable or rng.random() < 0.6 else rng.choice([moment(rng.choice(DATES)), rng.choice(MOMENTS), moment(rng.choice(DATES)).date()])  # noqa
    numbers = rng.randint(0, 5) if rng.random() < 0.7 else rng.randint(6, 30)
    r = {
        "t": rng.choice(TEXTS) if rng.random() < 0.8 else gen.anything(rng), "title": rng.choice(TEXTS), "Title": rng.choice(TEXTS), "n": rng.choice(INTS), "f": rng.choice(FLOATS), "k": rng.randint(0, 8), "when": date(), "until": date(),
        "maybe": rng.choice([None, date()]), "numtext": rng.choice(NUMERIC), "gap": rng.choice([None, rng.choice(NUMERIC), rng.choice(FLOATS)]), "flag": rng.random() < 0.5,
        "flagtext": rng.choice(["true", "TRUE", "false", "False"]), "l": [rng.choice(["b", "a", "Z", "é"]) for _ in range(rng.randint(0, 4))],
        "nums": [rng.randint(-9, 9) for _ in range(numbers)], "d": rng.choice([{"a": 1}, {}, {"x": "y", "z": None}, {"b": 1, "a": 2}, {"z": {"y": [1, 2], "B": 0}, "é": 1.5, "a": True}]), "with space": rng.choice(TEXTS), "year": rng.choice(INTS), "id": i,
    }
    if not jsonable and rng.random() < 0.5:
        # sets of one, as the order of others isn't given
        r["l"] = rng.choice([tuple(r["l"]), set(r["l"][:1])])
        r["nums"] = rng.choice([tuple(r["nums"]), set(r["nums"][:1])])
    for c in NULLABLE:
        if c in r and rng.random() < 0.2:
            del r[c]
    return r


# trees: ("column", name) ("text", s) ("number", n) ("date", s) ("bool", b) ("call", name, [..])
def literal(rng, kind):
    if kind == "text":
        return ("text", rng.choice(LITERALS))
    if kind == "date":
        return ("date", rng.choice(DATES))
    if kind in ("size", "days"):
        return ("number", rng.randint(0, 9) if kind == "size" else rng.randint(-400, 400))
    if kind == "bool":
        return ("bool", rng.random() < 0.5)
    if kind == "numeric":
        return ("text", rng.choice(["12", "3.75", "-7"]))
    return ("number", rng.choice([0, 1, 7, -3, 2.5, -0.25, 12]))


def nullable(tree):
    """could this be None for some record?"""
    if tree[0] == "column":
        return tree[1] in NULLABLE
    if tree[0] != "call":
        return False
    return tree[1] not in ("ISNONE", "STRING", "HASH", "MD5") and any(nullable(a) for a in tree[2])


def argument(rng, kind, depth, nulls):
    if kind in ("size", "days"):
        return ("column", "k") if rng.random() < 0.3 else literal(rng, kind)
    for _ in range(40):
        want = rng.choice(ACCEPTS[kind])
        k = rng.random()
        if depth and k < 0.35:
            names = [f for f, (result, args, _) in FUNCTIONS.items() if result == want]
            if not names:
                continue
            tree = call(rng, rng.choice(names), depth - 1)
        elif k < 0.5 and want not in ("list", "dict", "float", "number"):
            tree = literal(rng, want)
        else:
            columns = [c for c, of in COLUMNS.items() if of == want]
            if not columns:
                continue
            tree = ("column", rng.choice(columns))
        if nulls or not nullable(tree):
            return tree
    return ("column", {"text": "t", "date": "when", "number": "n", "numeric": "numtext", "bool": "flag", "list": "l", "textlist": "l", "words": "t", "any": "t", "some": "t"}[kind])


def call(rng, name, depth):
    result, kinds, _ = FUNCTIONS[name]
    nulls = name in ("ISNONE", "TRUNC", "INTEGER", "DOUBLE") or kinds[0] == "date"
    args = []
    for kind in kinds:
        if kind == "places?":
            if rng.random() < 0.6:
                args.append(("number", rng.randint(0, 4)))
        elif kind == "some":
            args += [argument(rng, "list", depth, False)] if rng.random() < 0.2 else [argument(rng, "some", depth, False) for _ in range(rng.choice([1, 2, 3, 4, rng.randint(5, 10)]))]
        elif kind == "ordered":
            of = rng.choice(["number", "number", "text", "date"])
            values = [argument(rng, of, depth, False) for _ in range(3)] if of != "date" else [("call", "DATE", [("column", c) if rng.random() < 0.8 else ("date", rng.choice(DATES))]) for c in rng.choices(["when", "until"], k=3)]
            if rng.random() < 0.4:
                values[rng.choice([1, 2])] = values[0]
            args += values
        else:
            args.append(argument(rng, kind, depth, nulls))
    return ("call", name, args)


def value(tree, record):
    if tree[0] == "column":
        return record.get(tree[1])
    if tree[0] == "call":
        return FUNCTIONS[tree[1]][2](*[value(a, record) for a in tree[2]])
    if tree[0] == "date":
        return moment(tree[1])
    return tree[1]


def write(rng, tree, spaced=True):
    """-> text, and the name a result has without AS"""
    kind = tree[0]
    if kind == "column":
        text = f"`{tree[1]}`" if tree[1] in QUOTED or (spaced and rng.random() < 0.05) else tree[1]
        return text, text
    if kind in ("text", "date"):
        text = f'"{tree[1]}"' if "'" in tree[1] or (rng.random() < 0.3 and '"' not in tree[1]) else f"'{tree[1]}'"
        return text, text
    if kind == "number":
        return repr(tree[1]), repr(tree[1])
    if kind == "bool":
        text = rng.choice([str(tree[1]), str(tree[1]).upper(), str(tree[1]).lower()])
        return text, text
    args = [write(rng, a) for a in tree[2]]
    name = "".join(rng.choice([c.upper(), c.lower()]) for c in tree[1]) if rng.random() < 0.4 else rng.choice([tree[1], tree[1].lower()])
    gap, comma = rng.choice(["", "", " "]), rng.choice([",", ", ", " , "])
    return f"{name}{gap}({gap}{comma.join(a[0] for a in args)}{gap})", f"{tree[1]}({','.join(a[1] for a in args)})"


def has_column(tree):
    return tree[0] == "column" or (tree[0] == "call" and any(has_column(a) for a in tree[2]))


def plain(record):
    return record if isinstance(record, dict) else record.as_dict()


def key_of(v):
    # 2 and 2.0 are told apart, but not the kinds of nothing
    return typed(v)


def one(ctx, case):
    from mabel import Reader, SqlReader
    from mabel.data.readers.internals.inline_evaluator import Evaluator

    rng = ctx.rng
    jsonable = case % 3 == 0
    records = [make_record(rng, i, jsonable) for i in range(rng.choice([1, 4, 10]))]
    pristine = [typed(r) for r in records]
    items, names = [], []
    expected = [dict() for _ in records]
    star = rng.random() < 0.15
    if star:
        for e, r in zip(expected, records):
            e.update(r)
        items.append("*")
    nontrivial = False
    for position in range(rng.choice([1, 1, 2, 4])):
        if rng.random() < 0.15:
            c = rng.choice([c for c in COLUMNS if c not in QUOTED])
            text, label, tree = c, c, ("column", c)
        else:
            name = list(FUNCTIONS)[(case + position * 7) % len(FUNCTIONS)] if rng.random() < 0.6 else rng.choice(list(FUNCTIONS))
            tree = call(rng, name, rng.choice([0, 0, 1, 2]))
            text, label = write(rng, tree)
            if rng.random() < 0.4:
                label = rng.choice(["alias", "result_1", "Total", "x", "ключ"]) + str(position)
                if rng.random() < 0.3:
                    # the result replaces the column's value, in the results only
                    label = rng.choice([c for c in COLUMNS if c not in QUOTED])
                text += rng.choice([" AS ", " as ", " As "]) + label
            nontrivial = nontrivial or has_column(tree)
            ctx.count("function " + name)
        items.append(text)
        names.append(label)
        for e, r in zip(expected, records):
            e[label] = value(tree, r)
    text = rng.choice([", ", ",", " , "]).join(items)
    want = [typed(e) for e in expected]
    detail = dict(select=text)

    def judge(got, through):
        if got == want:
            return True
        at = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), None)
        ctx.violation("a function's answer is wrong", through=through, expected=str(expected[at] if at is not None else len(want))[:600], got=str(got[at] if at is not None else len(got))[:900],
                      record=str(records[at] if at is not None else "")[:700], **detail)

    ok, evaluator = ctx.guard("Evaluator", Evaluator, text, detail=detail)
    if not ok:
        return
    for again in range(2):
        order = list(range(len(records)))
        if again:
            rng.shuffle(order)
        got = [None] * len(records)
        for i in order:
            if rng.random() < 0.2:
                Evaluator("UPPER(t), YEAR(`when`) AS y")({"t": "other", "when": "1066-10-14"})
            ok, row = ctx.guard("evaluating a function", evaluator, records[i], detail=dict(record=str(records[i])[:700], **detail))
            if not ok:
                return
            got[i] = typed(row)
        judge(got, "Evaluator")
    ctx.check([typed(r) for r in records] == pristine, "a function changed its record", **detail)
    if jsonable:
        store = Store()
        store.put("ds/c26/a.jsonl", b"\n".join(json.dumps(r).encode() for r in records))
        ok, rows = ctx.guard("Reader select", lambda: [typed(plain(r)) for r in Reader(dataset="ds/c26", partitions=None, inner_reader=adapters(store)[1], select=text)], detail=detail)
        if ok:
            judge(rows, "Reader select")
            ctx.count("through Reader")
        # in SQL these are other clauses
        if not star and len(set(names)) == len(names) and not any(q in names for q in QUOTED):
            ok, rows = ctx.guard("SQL", lambda: [typed({n: plain(r).get(n, "no such column") for n in names}) for r in SqlReader(f"SELECT {text} FROM ds.c26", partitions=None, inner_reader=adapters(store)[1])], detail=detail)
            if ok:
                judge(rows, "SQL")
                ctx.count("through SQL")
    ctx.seen((text, pristine), nontrivial=nontrivial, sample=detail)


def by_range(ctx):
    from mabel.data.readers.internals.inline_evaluator import Evaluator

    randoms = [Evaluator("RANDOM() AS r")({})["r"] for _ in range(30)]
    one = Evaluator("random() AS r, id")
    randoms += [one({"id": i})["r"] for i in range(300)]
    ctx.check(all(isinstance(r, float) and 0 <= r < 1 for r in randoms), "RANDOM is out of range", got=str(randoms[:9]))
    ctx.check(len(set(randoms)) > 100, "RANDOM isn't random", distinct=len(set(randoms)))
    for _ in range(20):
        before = datetime.datetime.now()
        now = Evaluator("NOW() AS n")({})["n"]
        ctx.check(before <= now <= datetime.datetime.now(), "NOW isn't the time", got=str(now))
    # a shared evaluator doesn't keep the first answer
    ctx.count("by range")


def run(ctx):
    ctx.minimum = ctx.n(300, 4000)
    ctx.deadline(10, 150)
    by_range(ctx)
    for case in range(ctx.n(2500, 100000)):
        if not ctx.more():
            break
        one(ctx, case)
    for name in FUNCTIONS:
        ctx.require("function " + name, 8)
    ctx.require("through Reader", 40)
    ctx.require("through SQL", 40)
