"""
One case is one of: random text (words, odd white space, other scripts, line breaks of every kind,
words longer than a line) split into tokens, made safe as a field name, sanitised with the characters given or the usual ones,
and wrapped at a random width, against references which go through the text a character at a time;
text with colour names in it (known ones, unknown ones, broken ones), coloured and stripped, against
a scan for the names; the same query of a Reader over the NullReader and over stored blobs of the
same records; a NullWriter given to the writers, which must answer like one which stores. The
answers are asked for twice and the input is compared with a copy. Non-trivial when the text isn't
empty; distinct by the text and how it was used.
"""

import json

from vf import gen
from vf.codec import bag, diff, typed
from vf.store import Store, adapters

ASSUMPTIONS = [
    "letters and digits are those of ASCII, unless others are given as safe",
    "names of colours aren't put together from what's around other names",
    "lines are wrapped at three characters or more, white space at the ends of lines and repeated breaks aren't kept, other characters are",
    "a null reader has the same data for every folder",
]

WORDS = ["abc", "Hello", "UPPER", "it's", "e-mail", "x_y", "日本語", "straße", "é", "123", "a1b2", "(brackets)", "semi;colon", "100%", "http://a.b/c?d=e", "x" * 45, "well-known-hyphens", "İ", "٣", "ǅ", "\x00", "tab", "--", "...", "$1", "\\n", "ﬁ", "K", "🙂"]
GAPS = [" ", " ", " ", "  ", "\t", "\n", "\n\n", "\r\n", "\r", "\u00a0", "\u2028", "\x0b", "\x0c", "", "", "\x1c", "\x85"]
LETTERS = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")
WHITE = set(" \t\n\r\x0b\x0c")


def make_text(rng):
    out = []
    for _ in range(rng.choice([0, 1, 2, 5, 12, 40])):
        out += [rng.choice(WORDS) if rng.random() < 0.8 else "".join(chr(rng.randint(33, 126)) for _ in range(rng.randint(1, 12))), rng.choice(GAPS)]
    return "".join(out)


def twice(ctx, what, func, *args, detail):
    ok, first = ctx.guard(what, func, *args, detail=detail)
    if not ok:
        return False, None
    ok, second = ctx.guard(what, func, *args, detail=detail)
    if ok:
        ctx.check(typed(first) == typed(second), f"{what} gave another answer the second time", first=repr(first)[:300], second=repr(second)[:300], **detail)
    return ok, first


def texts(ctx, case):
    from mabel import utils
    from mabel.utils import text as helpers

    rng = ctx.rng
    text = make_text(rng)
    detail = dict(text=repr(text)[:600])

    tokens, word = [], ""
    for c in text.lower() + " ":
        if c in WHITE:
            tokens += [word] if word else []
            word = ""
        elif c in LETTERS:
            word += c
    ok, got = twice(ctx, "tokenize", helpers.tokenize, text, detail=detail)
    if ok:
        ctx.check(list(got) == tokens, "text was split into the wrong tokens", got=str(got)[:400], expected=str(tokens)[:400], **detail)
        ctx.count("tokens", len(tokens))

    ok, got = twice(ctx, "safe_field_name", utils.safe_field_name, text, detail=detail)
    if ok:
        ctx.check(got == "".join(c for c in text if c in LETTERS or c in "_-"), "a field name was made safe wrongly", got=got[:400], **detail)

    if rng.random() < 0.5:
        ok, got = twice(ctx, "sanitize", helpers.sanitize, text, detail=detail)
        safe = LETTERS | WHITE
    else:
        given = "".join(rng.sample("abcdefghijklmnopqrstuvwxyz ABC.-_日é\n123🙂^]\\[", rng.randint(0, 20)))
        ok, got = twice(ctx, "sanitize", helpers.sanitize, text, given, detail=dict(detail, safe=given))
        safe = set(given)
    if ok:
        expected = "".join(c for c in text if c in safe)
        ctx.check(got == expected, "text was sanitised wrongly", got=repr(got)[:400], expected=repr(expected)[:400], **detail)
        ctx.count("characters dropped", len(text) - len(expected))

    width = rng.choice([3, 4, 8, 20, 40, 80, 200])
    detail["width"] = width
    ok, got = twice(ctx, "wrap_text", helpers.wrap_text, text, width, detail=detail)
    if ok:
        solid = lambda s: "".join(c for c in s if not c.isspace())  # noqa
        lines = got.split("\n")
        ctx.check(all(len(line) <= width for line in lines), "a wrapped line is too long", longest=max(map(len, lines)), **detail)
        ctx.check(solid(got) == solid(text), "wrapping text lost, made or moved characters", got=repr(got)[:500], **detail)
        # each line of the text is wrapped on its own, and not before it has to be
        at, given = 0, text.splitlines()
        for n, line in enumerate(given):
            want, taken = solid(line), 1
            have = solid(lines[at]) if at < len(lines) else None
            while have is not None and have != want and want.startswith(have) and at + taken < len(lines):
                have += solid(lines[at + taken])
                taken += 1
            if not ctx.check(have == want, "lines of the text were put together or split up", line=repr(line)[:200], number=n, got=repr(got)[:500], **detail):
                break
            plain = " ".join(line.split())
            if plain == line and len(line) <= width:
                ctx.check(lines[at] == line, "a line which fits was changed", line=repr(line), got=repr(lines[at]), **detail)
                ctx.count("lines which fit")
            at += taken
        else:
            ctx.check(at == len(lines) or (not given and lines == [""]), "wrapping made lines", got=repr(got)[:500], **detail)
        ctx.count("lines wrapped", max(0, len(lines) - len(given)))
    ctx.seen(("text", text, width), nontrivial=bool(text.strip()))


NAMES = ["BLACK", "RED", "GREEN", "YELLOW", "BLUE", "PURPLE", "CYAN", "WHITE"]
CODES = {"{OFF}": "\033[0m"}
for _prefix, _style in (("", 0), ("BOLD_", 1), ("UNDERLINE_", 4)):
    for _i, _name in enumerate(NAMES):
        CODES["{%s%s}" % (_prefix, _name)] = f"\033[{_style};3{_i}m"
NOT_COLOURS = ["{red}", "{ORANGE}", "{}", "{ RED }", "RED", "{BOLD}", "{BOLD_OFF}", "{BOLD RED}", "{UNDERLINE}", "text ", "{0}", "%s", "\033[1m", "{name}", "}", "日本"]


def colours(ctx, case):
    from mabel.utils.colors import colorize

    rng = ctx.rng
    known = rng.sample(list(CODES), rng.choice([1, 2, len(CODES)]))
    pieces = [rng.choice(known) if rng.random() < 0.5 else rng.choice(NOT_COLOURS) for _ in range(rng.randint(0, 12))]
    text = "".join(pieces)
    detail = dict(text=repr(text))
    coloured = "".join(CODES.get(p, p) for p in pieces)
    bare = "".join("" if p in CODES else p for p in pieces)
    if any(name in bare for name in CODES):
        return
    for args, expected in (((), coloured), ((True,), coloured), ((False,), bare)):
        ok, got = twice(ctx, "colorize", colorize, text, *args, detail=dict(detail, args=str(args)))
        if ok:
            ctx.check(got == expected, "text was coloured wrongly", got=repr(got), expected=repr(expected), args=str(args), **detail)
    ctx.count("colours", sum(p in CODES for p in pieces))
    ctx.seen(("colour", text), nontrivial=bool(pieces))


def plain(record):
    return record if isinstance(record, dict) else record.as_dict


def null_reads(ctx, case):
    from mabel import Reader
    from mabel.adapters.null import NullReader

    rng = ctx.rng
    records = [{"_id": i, "k": rng.randint(0, 4), "s": rng.choice(["x", "é\n\"q\"", "", None]), "v": gen.json_value(rng)} for i in range(rng.choice([1, 1, 3, 12, 60]))]
    before = typed(records)
    query = rng.choice([{}, {}, {"filters": "k > 2"}, {"filters": [("k", "<=", 2)]}, {"select": "_id, k"}, {"select": "_id, LEN(v) AS x", "filters": "k > 99"}])
    days = rng.choice([0, 1, 1, 3])
    when = dict(start_date="2021-01-01", end_date=f"2021-01-0{days}") if days else dict(partitions=None)
    store = Store()
    body = b"\n".join(json.dumps(r).encode() for r in records)
    for day in range(1, days + 1):
        store.put(f"ds/null/year_2021/month_01/day_0{day}/a.jsonl", body)
    if not days:
        store.put("ds/null/a.jsonl", body)
    detail = dict(query=query, days=days, records=str(records[:3])[:400])
    ok, stored = ctx.guard("a read of blobs", lambda: [plain(r) for r in Reader(dataset="ds/null", inner_reader=adapters(store)[1], **when, **query)], detail=detail)
    if not ok:
        return
    ok, got = ctx.guard("a read of the null reader", lambda: [plain(r) for r in Reader(dataset="ds/null", inner_reader=NullReader, data=records, **when, **query)], detail=detail)
    if not ok:
        return
    ctx.check([typed(r) for r in got] == [typed(r) for r in stored], "the null reader's data isn't read like a blob's", **detail, **diff(bag(stored), bag(got)))
    ctx.check(typed(records) == before, "the null reader changed its data", **detail)
    ctx.count("null records", len(got))
    ctx.seen(("null", before, str(query), days), nontrivial=bool(records))


def null_writes(ctx, case):
    from mabel.adapters.null import NullWriter
    from mabel.data import BatchWriter, StreamWriter, Writer

    rng = ctx.rng
    kind = rng.choice([BatchWriter, StreamWriter, Writer])
    schema = [{"name": "_id", "type": "INTEGER"}, {"name": "t", "type": "VARCHAR"}]
    form = rng.choice(["jsonl", "zstd", "parquet"])
    store = Store()
    pair = []
    records = [{"_id": i, "t": rng.choice(["x", "é", None])} for i in range(rng.choice([0, 1, 5, 30]))]
    before = typed(records)
    for inner in (NullWriter, adapters(store)[0]):

        def session():
            writer = kind(inner_writer=inner, dataset="ds/out", schema=schema, format=form)
            answers = [writer.append(dict(r)) for r in records]
            return answers, bool(writer.finalize()), bool(writer.finalize())

        ok, answers = ctx.guard("a writer over " + inner.__name__, session, detail=dict(writer=kind.__name__, records=len(records), format=form))
        if not ok:
            return
        pair.append(answers)
    ctx.check(typed(pair[0][0]) == typed(pair[1][0]), "a null writer is answered differently", writer=kind.__name__, null=str(pair[0])[:300], stored=str(pair[1])[:300])
    ctx.check(typed(records) == before, "a writer over the null writer changed a record", writer=kind.__name__)
    ctx.count("null writes", len(records))
    ctx.seen(("null write", kind.__name__, form, len(records)), nontrivial=bool(records))


def run(ctx):
    ctx.minimum = ctx.n(300, 5000)
    ctx.deadline(8, 100)
    for case in range(ctx.n(1500, 60000)):
        if not ctx.more():
            break
        texts(ctx, case)
        colours(ctx, case)
        if case % 4 == 0:
            null_reads(ctx, case)
        if case % 20 == 0:
            null_writes(ctx, case)
    ctx.require("tokens", 500)
    ctx.require("characters dropped", 500)
    ctx.require("lines wrapped", 200)
    ctx.require("lines which fit", 100)
    ctx.require("colours", 300)
    ctx.require("null records", 300)
    ctx.require("null writes", 50)
