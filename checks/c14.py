"""
One case is an expression, made from a random tree of conditions (each operator, literals of
each type on either side, quoted field names, NOT, AND, OR and parentheses) written with
random letter case, white space and redundant parentheses, and a list of records with
present, missing, None, incomparable and look-alike (text which reads as a number, boolean
or date) values. The oracle evaluates the tree itself. Judged on Expression (in two record
orders, twice), DictSet.filter (persisted and not) and Reader filters. Non-trivial when some
records are kept and some aren't; distinct by expression text. Also: expressions with something
added to an end, or nothing but a part, raise InvalidExpression.
"""

import datetime
import json
import math
import os
import random
import re

from vf import gen
from vf.codec import typed
from vf.store import Store, adapters

ASSUMPTIONS = [
    "a missing value is None: it is equal to NULL, not equal to anything else and in no other way satisfies a comparison",
    "text which reads as a number, boolean or ISO date is compared as one, except to quoted text and by LIKE, MATCHES and CONTAINS",
    "text in quotes doesn't hold its own quote character",
    "names of fields may have anything in them without being in quotes, so a missing operator or quote may make a name",
    "IN is only asked of lists",
    "booleans aren't compared with numbers",
]

# what text in a record reads as
TEXT = {
    "abc": "abc", "Abc": "Abc", "potter": "potter", "Harry Potter": "Harry Potter", "a,b": "a,b", "x(y)": "x(y)",
    "rock and roll": "rock and roll", "not in or": "not in or", "select * from": "select * from", "100%": "100%",
    "two  spaces": "two  spaces", " lead": " lead", "trail ": "trail ", "it's": "it's", 'say "and" or': 'say "and" or', "tab\tor": "tab\tor", "a_b": "a_b", "ab": "ab", "[x]": "[x]", "": "", "日本語": "日本語", "a*b": "a*b", "a.b": "a.b", "null": "null",
    "true": True, "FALSE": False, "007": 7, "12": 12, "-3": -3, "3.5": 3.5, "1e2": 100.0, "7": 7, "7.0": 7.0, "nan": math.nan, "9007199254740993": 2**53 + 1, "-9007199254740993": -(2**53) - 1,
    "2021-01-05": datetime.datetime(2021, 1, 5), "2021-01-05T10:30": datetime.datetime(2021, 1, 5, 10, 30),
    "1999-12-31 23:59:58": datetime.datetime(1999, 12, 31, 23, 59, 58), "2000-01-01": datetime.datetime(2000, 1, 1), "2021-13-45": "2021-13-45", "2021-01-05x": "2021-01-05x",
}
KNOWN = list(TEXT)
# any characters, which make up no number, boolean or date
_some = random.Random(os.environ.get("VERIF_SEED", "1"))
ANY = [t for t in ("w" + gen.anything(_some, unprintable=False) for _ in range(150)) if not ("'" in t and '"' in t)]
DATES = ["2021-01-05", "2021-01-05T10:30", "1999-12-31 23:59:58", "2000-01-01"]
PLAIN = [t for t in TEXT if not isinstance(TEXT[t], datetime.datetime)]
NUMBERS = [0, 1, 2, 7, -3, 12, 100, 3.5, -0.25, 7.0, 1000000, 2**53, 2**53 + 1, -(2**53) - 1]
PATTERNS = ["%", "a%", "%b", "%potter%", "a_b", "___", "ABC", "%(%", "100%", "%.%", "_", "", "%*%", "2021%", "2021-01-05", "0%", "%7", "harry potter", "tr_e", "%[%", "% and %"]
REGEXES = ["a", "^a", "b$", "^[A-Z]", "o+", "^.b", r"\\d", r"^\d+$", "a|7", "^$", "2021-01-05", "(x|y)", "and"]
FIELDS = {"n": "number", "m": "number", "name": "text", "other": "text", "code.x": "text", "with space": "text", "select": "number", "flag": "bool", "tags": "list", "nums": "list", "when": "date", "gone": "gone", "x-y": "number", "count": "text", " padded ": "text"}
NEED_QUOTES = {"with space", "select", "count", " padded "}


def some_text(rng, known):
    return rng.choice(known if rng.random() < 0.85 else ANY)


def make_value(rng, kind, jsonable):
    k = rng.random()
    if k < 0.12:
        return None
    if k < 0.2:
        # membership of text isn't defined, so isn't asked about
        kind = "number" if kind == "list" else rng.choice(["number", "text", "list", "text"])
    if kind == "number":
        return rng.choice(NUMBERS) if rng.random() < 0.7 else rng.randint(-20, 20)
    if kind == "text":
        return some_text(rng, KNOWN)
    if kind == "bool":
        return rng.random() < 0.5
    if kind == "date":
        text = rng.choice(DATES)
        return text if jsonable or rng.random() < 0.5 else as_date(text)
    if rng.random() < 0.5:
        return [some_text(rng, KNOWN) for _ in range(rng.randint(0, 4))]
    return [rng.choice(NUMBERS) for _ in range(rng.randint(0, 4))]


def as_date(text):
    return datetime.datetime.fromisoformat(text)


def make_record(rng, i, jsonable):
    record = {"_id": i}
    for field, kind in FIELDS.items():
        if kind != "gone" and rng.random() < 0.8:
            record[field] = make_value(rng, kind, jsonable)
    return record


# --- the oracle: nodes are ("and"|"or", a, b), ("not", a), ("cmp", op, left, right)
#     operands are ("field", name), ("text", s), ("date", s), ("number", n), ("bool", b), ("null",), ("list", [..])
def reads_as(value):
    return TEXT.get(value, value) if isinstance(value, str) else value


def raw(operand, record):
    kind = operand[0]
    if kind == "field":
        return record.get(operand[1])
    if kind == "date":
        return as_date(operand[1])
    if kind == "null":
        return None
    return operand[1]


def comparable(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return True
    return type(a) is type(b) and isinstance(a, (str, datetime.datetime, list))


def same(a, b):
    return a == b


def like_match(value, pattern):
    # a matcher of its own: dynamic programming over the characters
    text, pattern = str(value).lower(), pattern.lower()
    row = [True] + [False] * len(text)
    for p in pattern:
        if p == "%":
            seen, new = False, []
            for c in row:
                seen = seen or c
                new.append(seen)
        else:
            new = [False] + [row[i] and (p == "_" or p == text[i]) for i in range(len(text))]
        row = new
    return row[-1]


def compare(op, left, right, record):
    a, b = raw(left, record), raw(right, record)
    if op in ("LIKE", "NOT LIKE", "MATCHES", "CONTAINS"):
        b = right[1] if right[0] == "date" else b
        if op in ("LIKE", "NOT LIKE"):
            if a is None:
                found = False
            elif not isinstance(b, str):
                return False
            else:
                found = like_match(a, b)
            return found if op == "LIKE" else not found
        if op == "MATCHES":
            return isinstance(a, str) and isinstance(b, str) and re.search(b, a) is not None
        if isinstance(a, str):
            return isinstance(b, str) and b in a
        return isinstance(a, list) and any(same(b, x) for x in a)
    if op == "IN":
        if not isinstance(b, list):
            return False
        mine = [a] if left[0] != "field" else [a, reads_as(a)]
        theirs = list(b)
        if right[0] == "list":
            theirs = [raw(x, record) for x in b]
        else:
            theirs += [reads_as(x) for x in b]
        return any(same(x, y) for x in mine for y in theirs)
    text = "text" in (left[0], right[0])
    if left[0] == "field" and not (text and isinstance(a, str)):
        a = reads_as(a)
    if right[0] == "field" and not (text and isinstance(b, str)):
        b = reads_as(b)
    if op in ("=", "=="):
        return a == b
    if op in ("!=", "<>"):
        return not a == b
    if op == "IS":
        return a is b
    if op == "IS NOT":
        return a is not b
    if not comparable(a, b):
        return False
    try:
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
    except TypeError:
        return False


def truth(node, record):
    if node[0] == "and":
        return truth(node[1], record) and truth(node[2], record)
    if node[0] == "or":
        return truth(node[1], record) or truth(node[2], record)
    if node[0] == "not":
        return not truth(node[1], record)
    return bool(compare(node[1], node[2], node[3], record))


# --- making expressions
def literal(rng, kind):
    if kind == "number":
        return ("number", rng.choice(NUMBERS) if rng.random() < 0.7 else rng.randint(-20, 20))
    if kind == "date":
        return ("date", rng.choice(DATES))
    return ("text", some_text(rng, PLAIN))


def make_condition(rng):
    field = rng.choice(list(FIELDS))
    kind = FIELDS[field]
    left = ("field", field)
    k = rng.random()
    if k < 0.08:
        return ("cmp", rng.choice(["IS", "IS NOT", "=", "!="]), left, ("null",))
    if kind == "bool":
        return ("cmp", rng.choice(["IS", "IS NOT", "=", "!=", "==", "<>"]), left, ("bool", rng.random() < 0.5))
    if kind == "list":
        if k < 0.5:
            return ("cmp", "CONTAINS", left, literal(rng, rng.choice(["number", "text"])))
        return ("cmp", "IN", literal(rng, rng.choice(["number", "text"])), left)
    if kind == "gone":
        kind = rng.choice(["number", "text", "date"])
    if k < 0.2:
        return ("cmp", rng.choice(["LIKE", "NOT LIKE"]), left, ("text", rng.choice(PATTERNS)))
    if k < 0.27:
        return ("cmp", "MATCHES", left, ("text", rng.choice(REGEXES)))
    if k < 0.32:
        return ("cmp", "CONTAINS", left, ("text", rng.choice(["a", "b", "and", "7", "2021-01-05", "", " ", "(", "T"])))
    if k < 0.45:
        kinds = rng.choice([["number"], ["text"], ["text", "number"], ["date"], ["text", "date"]])
        return ("cmp", "IN", left, ("list", [literal(rng, rng.choice(kinds)) for _ in range(rng.choice([rng.randint(0 if rng.random() < 0.1 else 1, 4), rng.randint(5, 30)] if rng.random() < 0.5 else [1, 2, 3]))]))
    op = rng.choice(["=", "==", "!=", "<>", "<", ">", "<=", ">="])
    if rng.random() < 0.12:
        right = ("field", rng.choice([f for f in FIELDS if FIELDS[f] == kind]))
    else:
        right = literal(rng, kind if rng.random() < 0.85 else rng.choice(["number", "text", "date"]))
    if rng.random() < 0.15:
        left, right = right, left
    return ("cmp", op, left, right)


def make_tree(rng, depth):
    if depth == 0 or rng.random() < 0.3:
        return make_condition(rng)
    k = rng.random()
    if k < 0.2:
        return ("not", make_tree(rng, depth - 1))
    return (rng.choice(["and", "or"]), make_tree(rng, depth - 1), make_tree(rng, depth - 1))


def kw(rng, word):
    return rng.choice([word, word.lower(), word.title(), "".join(rng.choice([c.upper(), c.lower()]) for c in word)])


def quoted(rng, text):
    return f'"{text}"' if "'" in text or (rng.random() < 0.4 and '"' not in text) else f"'{text}'"


def write_operand(rng, operand):
    kind = operand[0]
    if kind == "field":
        name = operand[1]
        return f"`{name}`" if name in NEED_QUOTES or rng.random() < 0.2 else name
    if kind in ("text", "date"):
        return quoted(rng, operand[1])
    if kind == "number":
        return repr(operand[1])
    if kind == "bool":
        return kw(rng, "TRUE" if operand[1] else "FALSE")
    if kind == "null":
        return kw(rng, rng.choice(["NULL", "NONE"]))
    comma = rng.choice([",", ", ", " , "])
    return "(" + comma.join(write_operand(rng, x) for x in operand[1]) + ")"


def write(rng, node, above=None):
    if node[0] == "cmp":
        _, op, left, right = node
        gap = " " if op[0].isalpha() else rng.choice([" ", " ", "", "  "])
        text = write_operand(rng, left) + gap + kw(rng, op) + gap + write_operand(rng, right)
        level = 3
    elif node[0] == "not":
        text = kw(rng, "NOT") + " " + write(rng, node[1], "not")
        level = 2
    elif node[0] == "and":
        text = write(rng, node[1], "and") + rng.choice([" ", "\n", "  "]) + kw(rng, "AND") + " " + write(rng, node[2], "and right")
        level = 1
    else:
        text = write(rng, node[1], "or") + rng.choice([" ", "\t"]) + kw(rng, "OR") + " " + write(rng, node[2], "or")
        level = 0
    needed = {None: 0, "or": 0, "and": 1, "and right": 1, "not": 2}[above]
    if level < needed or rng.random() < 0.1:
        return "(" + rng.choice(["", " "]) + text + rng.choice(["", " "]) + ")"
    return text


def one(ctx, case):
    from mabel import DictSet, Reader
    from mabel.data.internals.dictset import STORAGE_CLASS
    from mabel.data.internals.expression import Expression

    rng = ctx.rng
    tree = make_tree(rng, rng.choice([0, 1, 1, 2, 3, 4]))
    text = write(rng, tree)
    through_reader = case % 3 == 0
    records = [make_record(rng, i, through_reader) for i in range(rng.choice([3, 12, 12, 30]))]
    before = [typed(r) for r in records]
    expected = [truth(tree, r) for r in records]
    want = [typed(r) for r, keep in zip(records, expected) if keep]
    detail = dict(expression=text)

    def wrong(what, record, expect, got):
        ctx.violation(what, record=str(record), expected=expect, got=str(got), **detail)

    ok, compiled = ctx.guard("compiling a valid expression", lambda: Expression(text), detail=detail)
    if not ok:
        return
    order = list(range(len(records)))
    for attempt in range(2):
        if attempt:
            rng.shuffle(order)
        for i in order:
            ok, got = ctx.guard("evaluating an expression", lambda: (compiled.evaluate(records[i]) if attempt else compiled(records[i])), detail=dict(record=str(records[i]), **detail))
            if not ok:
                return
            if bool(got) != expected[i]:
                return wrong("an expression's answer is wrong", records[i], expected[i], got)
    storage = rng.choice([None, STORAGE_CLASS.MEMORY, STORAGE_CLASS.NO_PERSISTANCE])
    ok, got = ctx.guard("DictSet.filter", lambda: list(DictSet(records if storage else iter(records), storage_class=storage or STORAGE_CLASS.NO_PERSISTANCE).filter(text)), detail=detail)
    if not ok:
        return
    if [typed(r) for r in got] != want:
        return wrong("DictSet.filter kept the wrong records", "", [r["_id"] for r, k in zip(records, expected) if k], [r.get("_id") for r in got])
    if [typed(r) for r in records] != before:
        return wrong("filtering changed the records", "", "", "")
    if through_reader:
        store = Store()
        lines = [json.dumps(r).encode() for r in records]
        at = rng.randint(0, len(lines))
        for name, part in (("a", lines[:at]), ("b", lines[at:])):
            store.put(f"ds/c14/{name}.jsonl", b"\n".join(part))
        ok, got = ctx.guard("Reader filters", lambda: [dict(r) if isinstance(r, dict) else r.as_dict() for r in Reader(dataset="ds/c14", partitions=None, inner_reader=adapters(store)[1], filters=text)], detail=detail)
        if not ok:
            return
        if [typed(r) for r in got] != want:
            return wrong("a Reader's filter kept the wrong records", "", [r["_id"] for r, k in zip(records, expected) if k], [r.get("_id") for r in got])
        ctx.count("reader_filters")

    def tally(node):
        if node[0] == "cmp":
            ctx.count("op " + node[1])
        for x in node[1:]:
            if isinstance(x, tuple) and x and x[0] in ("cmp", "and", "or", "not"):
                tally(x)

    tally(tree)
    ctx.count("answers", len(records))
    ctx.count("kept", sum(expected))
    ctx.seen(text, nontrivial=0 < sum(expected) < len(expected), sample=dict(kept=sum(expected), of=len(expected), **detail))


def malformed(ctx):
    """an expression with something left over, or missing, isn't one with a part of its meaning"""
    from mabel import DictSet, Reader
    from mabel.data.internals.expression import Expression, InvalidExpression

    rng = ctx.rng
    text = write(rng, make_tree(rng, rng.choice([0, 1, 1, 2])))
    k = rng.random()
    if k < 0.6:
        text += rng.choice([" )", ", n", " (n = 1)", " = 1", " AND", " OR", " NOT", " and )", " OR OR n = 1", " 'text'", " ()", " (", " <", " LIKE", " IS NOT", " AND n", " OR n =", " AND (n = 1", " or not"])
    elif k < 0.95:
        text = rng.choice(["(", "((", ") ", "AND ", "or ", "= ", ", ", "NOT AND ", "n = 1 (", "n <> <> ", "LIKE ", "() ", "(n = 1) ", "(n = 1 "]) + ("(" if k > 0.8 else "") + text + (")" if k > 0.8 else "")
    else:
        text = rng.choice(["", " ", "()", "AND", "n", "NOT", "n =", "= 1", "(", ")", "'n", "n = 'x"])
    how = rng.choice(["Expression", "filter", "Reader"])
    rows = [{"n": i} for i in range(4)]
    if how == "Reader":
        store = Store()
        store.put("ds/c14/a.jsonl", b"\n".join(json.dumps(r).encode() for r in rows))
        func = lambda: list(Reader(dataset="ds/c14", partitions=None, inner_reader=adapters(store)[1], filters=text))  # noqa
    elif how == "filter":
        func = lambda: list(DictSet(rows).filter(text))  # noqa
    else:
        func = lambda: Expression(text)  # noqa
    if how == "Reader" and not text:
        return  # there's no filter
    try:
        got = func()
        ctx.violation("a malformed expression was accepted", expression=text, how=how, got=repr(got))
    except InvalidExpression:
        ctx.count("refused")
    except Exception as error:  # noqa
        ctx.violation("a malformed expression raised something other than InvalidExpression", expression=text, how=how, error=repr(error))
    ctx.seen(("malformed", text))


def run(ctx):
    ctx.minimum = 300
    ctx.deadline(14, 420)
    for case in range(ctx.n(3000, 80000)):
        if not ctx.more():
            break
        one(ctx, case)
        if case % 4 == 0:
            malformed(ctx)
    ctx.require("reader_filters", 200)
    ctx.require("refused", 100)
    for op in ("=", "!=", "<", ">=", "IN", "LIKE", "NOT LIKE", "MATCHES", "CONTAINS", "IS", "IS NOT"):
        ctx.require("op " + op, 50)
