"""
One case is a LIKE pattern (or a regular expression) and a handful of values built to nearly
match it: by filling in the pattern's wildcards, then changing, adding or dropping a character,
in any letter case, over an alphabet of regular expression meta-characters, new lines, quotes
and other scripts; also numbers, booleans and None. The oracle is a dynamic programming matcher
over the characters (re.search for MATCHES). Every answer is asked of the functions, a DNF
filter, an Expression, DictSet.filter and sometimes a Reader's filters, patterns asked before
are asked again, in any order. Non-trivial when some of the values match and some don't;
distinct by pattern.
"""

import json
import re

from checks.c14 import like_match
from vf.store import Store, adapters

ASSUMPTIONS = [
    "letter case is as str.lower has it, for characters which lower() doesn't lengthen",
    "values which aren't text are matched as their text",
    "in an expression a pattern doesn't hold the quote character around it",
    "patterns of many wildcards aren't asked of long values, which takes time (a regular expression backtracks)",
    "MATCHES is asked of text and valid regular expressions",
]

CHARS = list("aabbABzZ01") + list(".^$*+?{}[]|()\\/-&#~!<>=@,;:`") + [" ", "\n", "\t", "\r", "é", "É", "ß", "日", "Ω", "'", '"', "\x00", "\u2028", "%", "_"]
ALL = CHARS * 2 + [chr(c) for c in range(33, 127)]
MATCHES = ["a", "^a", "b$", "^[A-Z]", "o+", "^.b", r"^\d+$", "a|7", "^$", "(x|y)", "and", "a.b", r"\.", "[%_]", "A", "(?i)A", r"\s", "z{2}", "é", r"\\", "^a.*b$"]


def make_pattern(rng):
    size = rng.choice([0, 1, 2, 3, 3, 5, 8])
    return "".join(rng.choice(["%", "_", "%", ""]) if rng.random() < 0.35 else rng.choice(ALL) for _ in range(size))


def fill(rng, pattern):
    out = []
    for c in pattern:
        if c == "%":
            out.append("".join(rng.choice(ALL) for _ in range(rng.choice([0, 0, 1, 3, 6]))))
        elif c == "_":
            out.append(rng.choice(ALL))
        else:
            out.append(rng.choice([c, c.upper() if len(c.upper()) == 1 else c, c.lower()]))
    return "".join(out)


def nearly(rng, text):
    at = rng.randint(0, len(text))
    how = rng.randrange(5)
    if how == 0:
        return text[:at] + rng.choice(CHARS) + text[at:]
    if how == 1 and text:
        return text[:max(at - 1, 0)] + text[at:]
    if how == 2 and text:
        at = rng.randrange(len(text))
        return text[:at] + rng.choice(CHARS) + text[at + 1:]
    if how == 3:
        return text + rng.choice(["\n", " ", "a"])
    return rng.choice(["\n", " ", "a"]) + text


def make_values(rng, pattern):
    out = []
    for _ in range(rng.randint(4, 8)):
        text = fill(rng, pattern)
        if rng.random() < 0.6:
            text = nearly(rng, text)
        out.append(text)
    # long values take very long for patterns with many wildcards
    long = ["x" * 300, "ab" * 150] if pattern.count("%") < 3 else []
    out += rng.sample([12, 3.5, True, "", None, "none", "12", "null", "\n", 0, False, "true"] + long, 3)
    return out


def quote(pattern):
    return f"'{pattern}'" if "'" not in pattern else f'"{pattern}"' if '"' not in pattern else None


def ask(ctx, pattern, op, values, expected, through_reader):
    """every way of asking must agree with what's expected"""
    from mabel import DictSet, Reader
    from mabel.data.internals.dnf_filters import DnfFilters
    from mabel.data.internals.expression import Expression
    from mabel.utils import text as functions

    rng = ctx.rng
    records = [{"i": i, "v": v} for i, v in enumerate(values)]
    if any(v is None for v in values):
        records.append({"i": len(values)})
        expected = expected + [expected[values.index(None)]]
    ways = []
    if op == "MATCHES":
        ways.append(("matches", lambda: [bool(functions.matches(r["v"], pattern)) if isinstance(r.get("v"), str) else e for r, e in zip(records, expected)]))
    else:
        function = {"LIKE": functions.like, "NOT LIKE": functions.not_like}[op]
        ways.append((function.__name__, lambda: [bool(function(r.get("v"), pattern)) for r in records]))
    if op != "NOT LIKE":
        dnf = [("v", rng.choice([op, op.lower()] if op == "LIKE" else [op, op.lower(), "~"]), pattern)]
        ways.append(("DnfFilters", lambda: [bool(DnfFilters(dnf)(r)) for r in records]))
        ways.append(("DictSet.filter with a DNF filter", lambda: [r["i"] in kept for kept in [{x["i"] for x in DictSet(records).filter(dnf)}] for r in records]))
    quoted = quote(pattern)
    if quoted is not None:
        expression = f"v {op} {quoted}"
        ways.append(("Expression", lambda: [bool(e.evaluate(r)) for e in [Expression(expression)] for r in records]))
        ways.append(("DictSet.filter with an expression", lambda: [r["i"] in kept for kept in [{x["i"] for x in DictSet(records).filter(expression)}] for r in records]))
    if through_reader:
        store = Store()
        store.put("ds/c22/a.jsonl", b"\n".join(json.dumps(r).encode() for r in records))
        given = expression if quoted is not None and rng.random() < 0.5 else dnf if op != "NOT LIKE" else None
        if given is not None:
            ways.append(("Reader filters", lambda: [r["i"] in kept for kept in [{x["i"] for x in Reader(dataset="ds/c22", partitions=None, inner_reader=adapters(store)[1], filters=given)}] for r in records]))
    for name, go in ways:
        detail = dict(operator=op, pattern=pattern, through=name)
        ok, got = ctx.guard("matching a pattern", go, detail=detail)
        if ok and got != expected:
            at = next(i for i, (a, b) in enumerate(zip(got, expected)) if a != b)
            ctx.violation("a pattern's answer is wrong", value=repr(records[at].get("v", "missing")), expected=expected[at], got=got[at], **detail)
        ctx.count("asked of " + name)


def one(ctx, case, earlier):
    rng = ctx.rng
    if case % 6 == 5:
        pattern = rng.choice(MATCHES)
        values = [rng.choice(["", "a", "b", "ab", "A", "xaby", "a\nb", "zz", "7", "foo", "AND", "and", "é", "a.b", "%", " ", "\\", "77"]) for _ in range(6)] + [None, 7, True]
        expected = [isinstance(v, str) and re.search(pattern, v) is not None for v in values]
        ask(ctx, pattern, "MATCHES", values, expected, case % 4 == 1)
        ctx.count("regular expressions")
    else:
        pattern = rng.choice(earlier) if earlier and rng.random() < 0.3 else make_pattern(rng)
        earlier.append(pattern)
        del earlier[:-12]
        values = make_values(rng, pattern)
        expected = [v is not None and like_match(v, pattern) for v in values]
        ask(ctx, pattern, "LIKE", values, expected, case % 5 == 0)
        ask(ctx, pattern, "NOT LIKE", values, [not e for e in expected], case % 5 == 1)
    ctx.count("matching", sum(expected))
    ctx.count("not matching", len(expected) - sum(expected))
    ctx.seen((case % 6 == 5, pattern), nontrivial=any(expected) and not all(expected), sample=dict(pattern=pattern, values=str(values), expected=str(expected)))


def run(ctx):
    ctx.minimum = ctx.n(500, 5000)
    ctx.deadline(8, 180)
    earlier = []
    for case in range(ctx.n(4000, 200000)):
        if not ctx.more():
            break
        one(ctx, case, earlier)
    for way in ("like", "not_like", "matches", "DnfFilters", "Expression", "DictSet.filter with an expression", "Reader filters"):
        ctx.require("asked of " + way, 50)
    ctx.require("matching", 300)
    ctx.require("not matching", 300)
