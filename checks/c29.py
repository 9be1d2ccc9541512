"""
One case is a call of Reader with a random subset of its parameters in random order (valid,
misspelt and unknown names, values which trigger the rules and values which don't, inner readers
with and without rules of their own), or of SqlReader, or of a function guarded by generated
rules. An independent model says if it's to be refused; the storage records every access. Calls
of all kinds are interleaved, so what one call leaves behind is seen by the next; accepted
Readers are read to the end. Non-trivial always; distinct by the names, values and order.
"""

import datetime
import json

from vf.store import Store, adapters

ASSUMPTIONS = [
    "a rule applies when its own parameter is true; the other parameter is then not given as None",
    "rules of inner readers name and require parameters, they don't exclude any",
    "a freshness_limit of no time isn't a limit",
    "where dates aren't given they are today",
]

DAY = datetime.date(2021, 2, 3)
ROWS = [{"n": 1}, {"n": 2}, {"n": 3}]

NAMES = ["select", "filters", "start_date", "end_date", "freshness_limit", "raw_path", "persistence", "override_format",
         "multiprocess", "cursor", "valid_dataset_prefixes", "partitions", "partition_filter", "project"]
UNKNOWN = ["selects", "Select", "DATASET", "data_set", "start", "end", "date", "where", "filter", "freshness", "format", "persistance", "start-date", "",
           "cursors", "cursorr", "raw path", "thread_count", "ключ", "x", "args", "self", "kwargs", "func", "multi_process", "partition", "inner_readers", "data", "secret_key"]
# of a read which hasn't read anything yet
START = {"map": "00", "partition": 0, "location": -1}
NEVER_TODAY = datetime.date(2019, 6, 7)


def values(rng, name):
    from mabel.data.internals.dictset import STORAGE_CLASS

    return {
        "select": lambda: rng.choice(["*", "n"]),
        "filters": lambda: rng.choice([None, "n > 0", [("n", ">", 0)], ("n", ">", 0)]),
        "start_date": lambda: rng.choice([DAY, DAY, "2021-02-03", NEVER_TODAY]),
        "end_date": lambda: rng.choice([DAY, DAY, "2021-02-03", NEVER_TODAY]),
        "freshness_limit": lambda: rng.choice(["1d", "6h30m", "", "30d"]),
        "raw_path": lambda: rng.choice([True, False, "true"]),
        "persistence": lambda: rng.choice(list(STORAGE_CLASS)),
        "override_format": lambda: rng.choice([None, "jsonl"]),
        "multiprocess": lambda: rng.choice([True, False]),
        "cursor": lambda: rng.choice([{}, None, "", dict(START), json.dumps(START)]),
        "valid_dataset_prefixes": lambda: rng.choice([["ds"], ["x", "ds/"], [], ["other"]]),
        "partitions": lambda: rng.choice([["year_{yyyy}/month_{mm}/day_{dd}"], ["year_{yyyy}", "month_{mm}", "day_{dd}"], [], None]),
        "partition_filter": lambda: rng.choice([("n", "=", "1"), None, ("n", "==", "2")]),
        "project": lambda: rng.choice(["p", None]),
    }[name]()


def invalid_combination(given):
    """any two parameters which can't be used together"""
    # (rule's own parameter, the other)
    rules = [("raw_path", "freshness_limit"), ("multiprocess", "cursor"), ("partitions", "raw_path"), ("partition_filter", "freshness_limit")]
    return [(a, b) for a, b in rules if given.get(a) and b in given]


def unspecified(given):
    """the other parameter is there, but says nothing"""
    return any(not given.get(b) for a, b in invalid_combination(given))


def dates_of(given, today):
    def one(name):
        value = given.get(name)
        return today if value is None else datetime.date.fromisoformat(str(value))

    return one("start_date"), one("end_date")


def shuffled(rng, given):
    return dict(sorted(given.items(), key=lambda kv: rng.random()))


class Readers:
    def __init__(self, ctx):
        self.store = Store()
        self.store.put("ds/year_2021/month_02/day_03/a.jsonl", b'{"n":1}\n{"n":2}\n{"n":3}\n')
        plain = adapters(self.store)[1]
        self.plain = plain

        class Ruled(plain):
            RULES = [{"name": "token", "required": True}, {"name": "region", "required": False, "warning": "soon gone"}]

        class Optional_(plain):
            RULES = [{"name": "region"}]

        self.kinds = {"plain": (plain, set(), set()), "ruled": (Ruled, {"token"}, {"token", "region"}), "optional": (Optional_, set(), {"region"})}

    def accesses(self):
        return len(self.store.events)


def reader_call(ctx, readers):
    from mabel.data import Reader
    from mabel.data.internals.dictset import STORAGE_CLASS
    from mabel.errors import DataNotFoundError

    rng = ctx.rng
    kind = rng.choice(["plain", "plain", "ruled", "optional"])
    inner, required, extra = readers.kinds[kind]
    given = {"inner_reader": inner, "dataset": rng.choice(["ds", "ds/"])}
    for name in rng.sample(NAMES, rng.choice([0, 1, 1, 2, 2, 3, 4, 6])):
        given[name] = values(rng, name)
    if rng.random() < 0.7 and "start_date" not in given and "end_date" not in given:
        given["start_date"] = given["end_date"] = rng.choice([DAY, "2021-02-03"])
    for name in extra:
        if rng.random() < (0.85 if name in required else 0.5):
            given[name] = rng.choice(["value", None, ""])
    faults = []
    chance = rng.random()
    if chance < 0.12:
        name = rng.choice(UNKNOWN)
        if name not in extra:
            given[name] = rng.choice([None, 1, "x", False])
            faults.append("unknown")
    elif chance < 0.16:
        name = rng.choice(["token", "region"])
        if name not in extra:
            given[name] = "value"
            faults.append("unknown")
    elif chance < 0.2:
        del given["dataset"]
        faults.append("missing")
    elif chance < 0.25:
        # a slip of the keyboard
        name = rng.choice(list(given))
        at = rng.randrange(len(name))
        typo = rng.choice([name[:at] + name[at + 1 :], name[:at] + "x" + name[at:], name.upper(), name + "s", " " + name])
        if name != "inner_reader":
            given[typo] = given.pop(name)
            faults.append("unknown")
            if name == "dataset" or name in required:
                faults.append("missing")
    if any(name not in given for name in required):
        faults.append("missing")
    if unspecified(given):
        return
    if invalid_combination(given):
        faults.append("combination")
    start, end = dates_of(given, datetime.datetime.utcnow().date())
    if not faults and given.get("freshness_limit") and start != end:
        faults.append("dates")
    if not faults and "valid_dataset_prefixes" in given and not any(given["dataset"].startswith(p) for p in given["valid_dataset_prefixes"]):
        faults.append("prefix")
    given = shuffled(rng, given)
    detail = dict(parameters={k: repr(v) for k, v in given.items()}, kind=kind)
    before = readers.accesses()
    snapshot = repr(given)
    empty = False
    try:
        made = Reader(**given)
        refused = None
    except Exception as err:  # noqa - judged below
        refused = err
    if faults or given.get("persistence") in (None, STORAGE_CLASS.NO_PERSISTANCE):
        ctx.check(readers.accesses() == before, "storage was used before the parameters were accepted", events=str(readers.store.events[before:][:4]), faults=faults, **detail)
    elif isinstance(refused, DataNotFoundError):
        # the records were kept straight away, and there are none
        refused = None
        empty = True
    ctx.check(repr(given) == snapshot, "the parameters were changed", **detail)
    if faults:
        if ctx.check(refused is not None, "a call which should be refused was accepted", faults=faults, **detail):
            for fault in set(faults):
                ctx.count("refused: " + fault)
    elif ctx.check(refused is None, f"a valid call was refused: {type(refused).__name__}: {refused}", **detail):
        ctx.count("accepted")
        # everything is in one folder, on one day
        raw = str(given.get("raw_path")).upper() == "TRUE" or not given.get("partitions", True)
        expected = ROWS if raw or min(start, end) <= DAY <= max(start, end) else None
        ctx.check(not (empty and expected), "valid parameters read nothing", **detail)
        # wide ranges are slow
        if expected and (raw or (max(start, end) - min(start, end)).days < 1000) and rng.random() < 0.5:
            ok, got = ctx.guard("reading with valid parameters", lambda: [dict(r) for r in made], detail=detail)
            if ok:
                ctx.check(got == expected, "valid parameters read other records", got=str(got)[:300], **detail)
                ctx.count("read")
    ctx.seen(("reader", list(detail["parameters"].items()), kind))


def sql_call(ctx, readers):
    from mabel import SqlReader

    rng = ctx.rng
    given = {"inner_reader": readers.plain, "start_date": DAY, "end_date": DAY}
    fault = rng.random() < 0.6
    name = rng.choice([n for n in UNKNOWN if n not in ("self",)])
    if fault:
        given[name] = 1
    given = shuffled(rng, given)
    before = readers.accesses()
    try:
        got = SqlReader("SELECT * FROM ds", **given)
        refused = None
    except Exception as err:  # noqa - judged below
        refused = err
    detail = dict(parameters={k: repr(v) for k, v in given.items()})
    if fault:
        ctx.check(refused is not None, "a SqlReader accepted an unknown parameter", **detail)
        ctx.check(readers.accesses() == before, "storage was used before the parameters were accepted", **detail)
        ctx.count("sql refused")
    elif ctx.check(refused is None, f"a valid SqlReader was refused: {refused!r}", **detail):
        ctx.check([dict(r) for r in got] == ROWS, "a SqlReader read other records", **detail)
        ctx.count("sql accepted")
    ctx.seen(("sql", list(detail["parameters"].items())))


class Argument:
    """an argument which brings rules"""

    def __init__(self, rules):
        self.RULES = rules


def guarded(ctx, case):
    """functions with generated rules"""
    from mabel.utils.parameter_validator import validate

    rng = ctx.rng
    names = rng.sample(["alpha", "beta", "gamma", "delta", "a", "b", "alphabet", "x_1"], rng.randint(1, 6))
    rules = []
    for name in names:
        rule = {"name": name}
        if rng.random() < 0.6:
            rule["required"] = rng.random() < 0.3
        if rng.random() < 0.3:
            rule["warning"] = rng.choice([None, "", "careful"])
        if rng.random() < 0.4:
            rule["incompatible_with"] = rng.sample(names, rng.randint(0, min(2, len(names))))
            if name in rule["incompatible_with"]:
                rule["incompatible_with"].remove(name)
        rules.append(rule)
    rng.shuffle(rules)
    before = repr(rules)
    calls = []
    positional = rng.sample(names, rng.randint(0, len(names)))
    namespace = {"calls": calls}
    exec(f"def target({''.join(n + '=None, ' for n in positional)}**kwargs):\n    calls.append(1)\n    return 'result'", namespace)
    target = validate(rules)(namespace["target"])
    for _ in range(8):
        entered = {}
        args = []
        for name in positional[: rng.randint(0, len(positional))]:
            args.append(rng.choice([None, 0, 1, "x", "", [1]]))
            entered[name] = args[-1]
        for name in names:
            if name not in entered and rng.random() < 0.6:
                entered[name] = rng.choice([None, 0, 1, "x", "", [1], False])
        brought = []
        if rng.random() < 0.3 and entered:
            brought = [{"name": "brought", "required": rng.random() < 0.5}, {"name": "also"}]
            name = rng.choice(list(entered))
            entered[name] = Argument(list(brought))
            if name in positional[: len(args)]:
                args[positional.index(name)] = entered[name]
        if rng.random() < 0.3:
            entered["brought"] = 1
        if rng.random() < 0.1:
            entered[rng.choice(["Alpha", "betta", "zeta", "names", "alpha_"])] = 1
        known = set(names) | {r["name"] for r in brought}
        required = {r["name"] for r in rules + brought if r.get("required")}
        bad = [n for n in entered if n not in known] or [n for n in required if n not in entered]
        for rule in rules:
            if entered.get(rule["name"]):
                bad += [n for n in rule.get("incompatible_with", []) if n in entered]
        keywords = shuffled(rng, {k: v for k, v in entered.items() if k not in positional[: len(args)]})
        ran = len(calls)
        detail = dict(rules=before, args=repr(args), keywords=str({k: repr(v) for k, v in keywords.items()}))
        try:
            result = target(*args, **keywords)
            refused = None
        except Exception as err:  # noqa - judged below
            refused, result = err, None
        if bad:
            ctx.check(refused is not None and len(calls) == ran, "a function was called with invalid parameters", invalid=bad, **detail)
            ctx.count("functions not called")
        else:
            ctx.check(refused is None, f"a valid call of a function was refused: {refused!r}", **detail)
            ctx.check(len(calls) == ran + 1 and result == "result", "the function wasn't called once, or its result isn't returned", **detail)
            ctx.count("functions called")
        ctx.check(repr(rules) == before, "a call changed the rules", after=repr(rules), **detail)
        ctx.seen(("function", before, detail["args"], detail["keywords"]))


def run(ctx):
    ctx.minimum = ctx.n(1000, 15000)
    ctx.deadline(14, 180)
    readers = Readers(ctx)
    for case in range(ctx.n(4000, 100000)):
        if not ctx.more():
            break
        if case % 12 == 5:
            sql_call(ctx, readers)
        elif case % 4 == 3:
            guarded(ctx, case)
        else:
            reader_call(ctx, readers)
    ctx.require("accepted", 50)
    ctx.require("read", 15)
    for fault in ("unknown", "missing", "combination", "dates", "prefix"):
        ctx.require("refused: " + fault, 3)
    for name in ("sql refused", "sql accepted", "functions called", "functions not called"):
        ctx.require(name, 4)
