"""
One case is one nested record (dictionaries and lists to any depth, keys of any text and of
other types, empty containers, long lists, leaves of any type) flattened with some separator and
parent key: the result must hold exactly the leaves of an independent walk of the record, each
the very object which was put in, under its path. Or a record given to order, set_value or
select_record_fields. The input is compared with a deep copy afterwards. Non-trivial when there
is nesting (flatten) or a field (the others); distinct by the record and the arguments.
"""

import collections
import datetime
import decimal
import types

from vf import gen

ASSUMPTIONS = [
    "empty lists and dictionaries have no leaves; tuples, sets and bytes are leaves",
    "an empty or missing parent key adds nothing",
    "where the record's own keys spell the same path, either leaf is right",
    "order is given keys which can be compared",
]

KEYS = ["a", "b", "c", "", "a.b", ".", "0", "1", "with space", "ключ", "None", "_", "a_b", "x" * 40]
ODD = [0, 1, -7, 2.5, None, True, False, (1, 2)]
SEPARATORS = [".", ".", ".", "_", "", "::", "/", "→", " ", "a"]


class Row(dict):
    pass


def leaf(rng):
    kind = rng.random()
    if kind < 0.7:
        return gen.scalar(rng)
    return rng.choice([(), (1, [2]), b"bytes", {1, 2}, datetime.date(2021, 2, 3), decimal.Decimal("1.5"), "", 0, False, frozenset(), object])


def grow(rng, depth):
    """a dictionary or list"""
    size = rng.choice([0, 1, 1, 2, 2, 3, 4]) if depth else rng.choice([0, 1, 2])
    if rng.random() < 0.02:
        size = rng.randint(9, 120)
    children = [grow(rng, depth - 1) if depth and rng.random() < 0.5 else leaf(rng) for _ in range(size)]
    if rng.random() < 0.4:
        return children
    made = {(rng.choice(ODD) if rng.random() < 0.08 else rng.choice(KEYS)): child for child in children}
    kind = rng.random()
    if kind < 0.05:
        return collections.OrderedDict(made)
    if kind < 0.1:
        return collections.UserDict(made)
    if kind < 0.13:
        return Row(made)
    if kind < 0.15:
        return types.MappingProxyType(made)
    return made


def chain(rng, depth):
    value = leaf(rng)
    for _ in range(depth):
        value = [value] if rng.random() < 0.4 else {rng.choice(KEYS): value}
    return value


def leaves(value, path=()):
    """(path, leaf) in order"""
    if hasattr(value, "items"):
        for key, child in value.items():
            yield from leaves(child, path + (key,))
    elif isinstance(value, list):
        for position, child in enumerate(value):
            yield from leaves(child, path + (position,))
    else:
        yield path, value


def thawed(value):
    """something to compare, made of plain containers and the identity of the leaves"""
    if hasattr(value, "items"):
        return ("d", type(value).__name__, [(repr(k), thawed(v)) for k, v in value.items()])
    if isinstance(value, list):
        return ("l", [thawed(v) for v in value])
    return ("v", type(value).__name__, repr(value))


def flattening(ctx, case):
    from mabel.data.internals.records import flatten

    rng = ctx.rng
    if rng.random() < 0.03:
        record = {rng.choice(KEYS): chain(rng, rng.randint(20, 150))}
    else:
        record = {}
        for _ in range(rng.randint(0, 5)):
            key = rng.choice(ODD) if rng.random() < 0.05 else rng.choice(KEYS)
            record[key] = grow(rng, rng.randint(0, 4)) if rng.random() < 0.7 else leaf(rng)
        if rng.random() < 0.1:
            record = collections.UserDict(record)
    before = thawed(record)
    separator = rng.choice(SEPARATORS)
    parent = rng.choice([None, None, "parent", "p.q", "", 7]) if rng.random() < 0.3 else None
    arguments = {}
    if separator != "." or rng.random() < 0.3:
        arguments["separator"] = separator
    if parent is not None:
        arguments["parent_key"] = parent
    detail = dict(record=before, arguments=repr(arguments))
    ok, got = ctx.guard("flatten", flatten, record, detail=detail, **arguments)
    if not ok:
        return
    expected = {}
    nested = 0
    for path, value in leaves(record):
        nested += len(path) > 1
        if parent:
            path = (parent,) + path
        name = path[0] if len(path) == 1 else separator.join(str(step) for step in path)
        expected.setdefault(name, []).append(value)
    if type(got) is not dict:
        ctx.violation("flatten didn't return a dictionary", got=repr(got), **detail)
        return
    missing = [name for name in expected if name not in got]
    extra = [name for name in got if name not in expected]
    ctx.check(not missing, "leaves are missing", missing=missing[:5], got=list(got)[:20], **detail)
    ctx.check(not extra, "there are leaves which aren't in the record", extra=extra[:5], **detail)
    wrong = [name for name in expected if name in got and not any(got[name] is value for value in expected[name])]
    ctx.check(not wrong, "a path has a value which isn't the leaf there", paths=wrong[:5], **detail)
    ctx.check(thawed(record) == before, "flatten changed the record", after=thawed(record), **detail)
    ctx.count("leaves", sum(len(v) for v in expected.values()))
    ctx.count("nested leaves", nested)
    ctx.count("paths spelt twice", sum(len(v) > 1 for v in expected.values()))
    ctx.seen(("flatten", before, repr(arguments)), nontrivial=nested > 0)


def flat_record(rng):
    names = rng.sample([k for k in KEYS if k] + ["B", "Z", "é", "10", "9"], rng.randint(0, 8))
    return {name: (grow(rng, 1) if rng.random() < 0.2 else leaf(rng)) for name in names}


def helpers(ctx, case):
    from mabel.data.internals.records import order
    from mabel.data.internals.records import select_record_fields
    from mabel.data.internals.records import set_value

    rng = ctx.rng
    record = flat_record(rng)
    before = thawed(record)
    originals = dict(record)
    detail = dict(record=before)

    ok, got = ctx.guard("order", order, record, detail=detail)
    if ok:
        ctx.check(list(got) == sorted(originals), "order didn't sort the keys", got=list(got), **detail)
        ctx.check(all(got.get(k) is v for k, v in originals.items()), "order changed a value", got=thawed(got), **detail)
        ctx.check(got is not record, "order returned its input", **detail)

    fields = [rng.choice(list(originals) + ["missing", "Missing", ""]) for _ in range(rng.randint(0, 12))]
    asked = list(fields)
    given = rng.choice([fields, fields, tuple(fields)])
    ok, got = ctx.guard("select_record_fields", select_record_fields, record, given, detail=dict(detail, fields=asked))
    if ok:
        ctx.check(list(got) == list(dict.fromkeys(asked)), "the fields selected aren't those asked for", got=list(got), fields=asked, **detail)
        ctx.check(all(value is originals.get(name) for name, value in got.items()), "a field was selected with another value", got=thawed(got), fields=asked, **detail)
        ctx.check(list(given) == asked, "the list of fields changed", **detail)

    name = rng.choice(list(originals) + ["new", "", "new"])
    given_rows = []
    kind = rng.choice(["constant", "constant", "function", "method", "meddler", "object"])
    value = leaf(rng)
    while callable(value):
        value = leaf(rng)
    if kind == "constant":
        setter = value
    elif kind == "function":

        def setter(row):
            given_rows.append(dict(row))
            return value
    elif kind == "method":
        setter = dict.copy
    elif kind == "object":

        class Setter:
            def __call__(self, row):
                given_rows.append(dict(row))
                return value

        setter = Setter()
    else:

        def setter(row):
            row["meddled"] = 1
            return value

    ok, got = ctx.guard("set_value", set_value, record, name, setter, detail=dict(detail, field=name, setter=kind))
    if ok:
        others = {k: v for k, v in originals.items() if k != name}
        ctx.check(all(k in got and got[k] is v for k, v in others.items()), "set_value changed another field", got=thawed(got), field=name, setter=kind, **detail)
        allowed = set(others) | {name} | ({"meddled"} if kind == "meddler" else set())
        ctx.check(set(got) <= allowed and name in got, "set_value has the wrong fields", got=list(got), field=name, setter=kind, **detail)
        if kind == "method":
            ctx.check(got[name] == originals, "the function didn't get the record", got=repr(got[name]), field=name, **detail)
        else:
            ctx.check(got.get(name) is value, "set_value set another value", got=repr(got.get(name)), expected=repr(value), field=name, setter=kind, **detail)
        for row in given_rows:
            ctx.check(thawed(row) == before, "the function was given another record", row=thawed(row), **detail)
        ctx.check(len(given_rows) == (kind in ("function", "object")), "the function was called more than once", calls=len(given_rows), **detail)
        ctx.count("set by " + kind)
    ctx.check(thawed(record) == before, "the record was changed", after=thawed(record), **detail)
    ctx.seen(("helpers", before, asked, name, kind), nontrivial=bool(originals))


def run(ctx):
    ctx.minimum = ctx.n(1500, 20000)
    ctx.deadline(8, 120)
    for case in range(ctx.n(8000, 300000)):
        if not ctx.more():
            break
        (flattening if case % 3 else helpers)(ctx, case)
    ctx.require("nested leaves", 3000)
    ctx.require("paths spelt twice", 20)
    for kind in ("constant", "function", "method", "meddler", "object"):
        ctx.require("set by " + kind, 30)
