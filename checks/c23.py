"""
One case is one of: a date and time written in one of the documented ISO forms (date, minutes,
seconds, fraction; T or a space; Z, an offset or neither), which must be read back exactly;
the same text with one thing changed so that it isn't a date (a field out of range, a sign,
space, letter or other script's digit in a field, a wrong separator, cut short), or a value of
some other type, which must be read as None and never raise; a date value of any kind, passed
through; a duration, against its parts' sum; a range, against a loop which adds an hour.
Non-trivial always; distinct by the text or bounds.
"""

import datetime
import decimal
import math

from vf.clock import frozen

ASSUMPTIONS = [
    "the process runs in UTC, and a timestamp is in seconds",
    "what follows the seconds (a fraction, an offset) is ignored, whatever it is",
    "text is of up to 33 characters, or 28 in front of an offset (and so fractions are of up to nine digits)",
]


def moment(rng):
    if rng.random() < 0.3:
        year = rng.choice([1, 4, 99, 100, 400, 999, 1000, 1582, 1900, 1969, 1970, 2000, 2038, 2100, 9999])
    else:
        year = rng.randint(1, 9999)
    month = rng.randint(1, 12)
    last = 29 if month == 2 and (year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)) else 28 if month == 2 else 30 if month in (4, 6, 9, 11) else 31
    day = rng.choice([1, last, rng.randint(1, last)])
    return datetime.datetime(year, month, day, rng.choice([0, 23, rng.randint(0, 23)]), rng.choice([0, 59, rng.randint(0, 59)]), rng.choice([0, 59, rng.randint(0, 59)]), rng.randint(0, 999999)), last


def write(rng, at):
    """-> text and what it says"""
    date = f"{at.year:04d}-{at.month:02d}-{at.day:02d}"
    form = rng.choice(["date", "minutes", "seconds", "seconds", "fraction"])
    tail = rng.choice(["", "", "Z", "+00:00", "+0000", "+01:00", "+11:30"])
    if form == "date":
        return date + rng.choice(["", "", "Z", tail]), at.replace(hour=0, minute=0, second=0, microsecond=0)
    text = date + rng.choice("T ") + f"{at.hour:02d}:{at.minute:02d}"
    if form == "minutes":
        return text + tail, at.replace(second=0, microsecond=0)
    text += f":{at.second:02d}"
    if form == "fraction":
        text += "." + f"{at.microsecond:06d}{rng.randint(0, 999):03d}"[: rng.choice([1, 3, 6, 6, 8, 9, rng.randint(1, 9)])]
        if tail[:1] == "+" and (len(text) > 28 or len(text + tail) > 33):
            tail = ""
    return text + tail, at.replace(microsecond=0)


FIELDS = {"year": (0, 4), "month": (5, 7), "day": (8, 10), "hour": (11, 13), "minute": (14, 16), "second": (17, 19)}


def spoil(rng, text, last):
    """-> what was done and text which isn't a date"""
    size = text.index("+") if "+" in text else len(text)
    fields = [f for f, (a, b) in FIELDS.items() if b <= size and (f == "year" or text[a - 1] not in "Z+.") and text[a:b].isdigit()]
    how = rng.choice(["range", "range", "letter", "sign", "space", "underscore", "script", "separator", "short", "slash", "empty"])
    if how in ("separator", "slash"):
        places = [4, 7] + ([10] if size >= 16 and text[10] in "T " else []) + ([13] if size >= 16 and text[13] == ":" else []) + ([16] if size >= 19 and text[16] == ":" else [])
        at = rng.choice(places)
        return how, text[:at] + ("/" if how == "slash" else rng.choice("._x0,")) + text[at + 1:]
    if how == "short":
        return how, text[: rng.randint(1, 9)]
    if how == "empty":
        return how, rng.choice(["", " ", "not a date at all", "0000000000", "----------", "x" * 40, "2021", "T" * 16, "+" * 12, "Z" * 20, "2021-02-30", "1900-02-29T00:00", "::::::::::::::::", "\x00" * 19, "１２３４-01-01"])
    field = rng.choice(fields)
    a, b = FIELDS[field]
    if how == "range":
        bad = {"year": ["0000"], "month": ["00", "13", "99"], "day": ["00", f"{last + 1:02d}", "99"], "hour": ["24", "99"], "minute": ["60", "99"], "second": ["60", "61", "99"]}[field]
        return how, text[:a] + rng.choice(bad) + text[b:]
    at = rng.randrange(a, b)
    if how == "underscore":
        at = min(max(at, a), b - 1)
    with_ = {"letter": "xOl", "sign": "-", "space": " \t", "underscore": "_", "script": "٣３²"}[how]
    return how, text[:at] + rng.choice(with_) + text[at + 1:]


def iso(ctx, case):
    from mabel.utils.dates import parse_iso

    rng = ctx.rng
    at, last = moment(rng)
    text, meant = write(rng, at)
    ok, got = ctx.guard("parse_iso", parse_iso, text, detail=dict(text=text))
    if ok:
        ctx.check(got == meant and type(got) is datetime.datetime, "a date was read wrongly", text=text, got=repr(got), expected=repr(meant))
        ctx.count("dates read")
    ctx.seen(("iso", text))
    for _ in range(3):
        how, bad = spoil(rng, text, last)
        if "+" in bad and how == "sign":
            continue
        ok, got = ctx.guard("parse_iso", parse_iso, bad, detail=dict(text=bad))
        if ok:
            ctx.check(got is None, "text which isn't a date was read as one", how=how, text=bad, got=repr(got))
            ctx.count("spoilt by " + how)
        ctx.seen(("bad", bad))


def values(ctx, case):
    import numpy
    import pandas

    from mabel.utils.dates import parse_iso

    rng = ctx.rng
    at, _ = moment(rng)
    near = datetime.datetime(rng.randint(1971, 2200), at.month, min(at.day, 28), at.hour, at.minute, at.second, at.microsecond)
    stamp = rng.choice([0, 1, rng.randint(1, 2**32), round(rng.uniform(1, 2**31), 3)])
    epoch = datetime.datetime(1970, 1, 1)
    midnight = lambda d: d.replace(hour=0, minute=0, second=0, microsecond=0)  # noqa
    aware = at.replace(tzinfo=datetime.timezone.utc)
    good = [
        (at, at), (aware, aware), (at.date(), midnight(at)), (pandas.Timestamp(near), near), (int(stamp), epoch + datetime.timedelta(seconds=int(stamp))),
        (numpy.datetime64(at, "us"), at), (numpy.datetime64(at, "s"), at.replace(microsecond=0)), (numpy.datetime64(at.date(), "D"), midnight(at)),
        (numpy.datetime64(near, "ns"), near), (numpy.datetime64(near, "ms"), near.replace(microsecond=near.microsecond // 1000 * 1000)),
        (numpy.datetime64(near.date(), "M"), midnight(near).replace(day=1)), (numpy.datetime64(near.date(), "Y"), midnight(near).replace(month=1, day=1)),
    ]
    for value, meant in rng.sample(good, 4):
        ok, got = ctx.guard("parse_iso", parse_iso, value, detail=dict(value=repr(value)))
        if ok:
            ctx.check(got == meant and isinstance(got, datetime.datetime), "a date value was changed", value=repr(value), got=repr(got), expected=repr(meant))
            ctx.count("date values")
    if isinstance(stamp, float):
        ok, got = ctx.guard("parse_iso", parse_iso, stamp)
        if ok:
            ctx.check(got is not None and abs((got - epoch).total_seconds() - stamp) < 1e-3, "a timestamp was changed", value=stamp, got=repr(got))
    bad = [None, True, False, [], {}, (2021, 1, 1), b"2021-01-01", math.nan, math.inf, -math.inf, 1e30, 2**70, -(2**70), decimal.Decimal(1), object(), datetime.timedelta(1), datetime.time(1), numpy.datetime64("NaT"), 1j, ["2021-01-01"], type, "2021-01-01".encode(), bytearray(b"2021-01-01"), set()]
    for value in rng.sample(bad, 6):
        ok, got = ctx.guard("parse_iso", parse_iso, value, detail=dict(value=repr(value)))
        if ok:
            ctx.check(got is None, "a value which isn't a date was read as one", value=repr(value), got=repr(got))
            ctx.count("other values")
    noise = "".join(rng.choice("0123456789-:T +Z./ax\n٣\x00") for _ in range(rng.choice([10, 16, 19, 20, 26, 33])))
    ok, got = ctx.guard("parse_iso", parse_iso, noise, detail=dict(text=noise))
    if ok and got is not None:
        digits = f"{got:%Y-%m-%d}" if got.year > 999 else f"{got.year:04d}{got:-%m-%d}"
        ctx.check([c for c in noise if c.isdigit()][:8] == [c for c in digits if c.isdigit()], "noise was read as another date", text=noise, got=repr(got))
    ctx.seen(("values", repr(at), stamp, noise))


def delta(ctx, case):
    from mabel.utils.dates import parse_delta

    rng = ctx.rng
    parts = {u: rng.choice([0, 1, -1, 5, 12, 59, 60, 100, rng.randint(-5000, 5000)]) for u in rng.sample("dhms", rng.randint(1, 4))}
    text = "".join(f"{parts[u]}{rng.choice([u, u.upper()])}" for u in "dhms" if u in parts)
    meant = datetime.timedelta(seconds=sum(n * {"d": 86400, "h": 3600, "m": 60, "s": 1}[u] for u, n in parts.items()))
    ok, got = ctx.guard("parse_delta", parse_delta, text, detail=dict(text=text))
    if ok:
        ctx.check(got == meant, "a duration was read wrongly", text=text, got=repr(got), expected=repr(meant))
        ctx.count("durations")
    other = rng.choice(["", "five seconds", "d", "h5", " ", "-", "x" + text, "日"])
    ok, got = ctx.guard("parse_delta", parse_delta, other)
    if ok:
        ctx.check(got == datetime.timedelta(0), "text which isn't a duration was read as one", text=other, got=repr(got))
    ctx.seen(("delta", text))


def ranges(ctx, case):
    from mabel.utils.dates import date_range

    rng = ctx.rng
    start = datetime.datetime(rng.choice([1999, 2000, 2019, 2020, 2021]), rng.choice([1, 2, 3, 12, 10]), rng.choice([1, 28, 27, 15]), rng.choice([0, 23, 7, 12]), rng.choice([0, 1, 59]), rng.choice([0, 59]), rng.choice([0, 1, 999999]))
    length = rng.choice([0, 1, 2, 23, 24, 25, 47, 48, 200, 24 * 31, 0.5, 1.25, 71.99])
    end = start + datetime.timedelta(hours=length)
    floor = lambda d: d.replace(minute=0, second=0, microsecond=0)  # noqa

    def as_given(d, last):
        """a bound in one of its forms, and the hour it means"""
        how = rng.choice(["datetime", "datetime", "date", "text", "text date", "none"])
        if how == "datetime":
            return how, d, floor(d)
        if how == "text":
            return how, d.strftime("%Y-%m-%dT%H:%M" + rng.choice(["", ":%S"])), floor(d)
        if how == "none":
            return how, None, None
        return how, d.date() if how == "date" else d.strftime("%Y-%m-%d"), d.replace(hour=23 if last else 0, minute=0, second=0, microsecond=0)

    (how_s, given_s, first), (how_e, given_e, last) = as_given(start, False), as_given(end, True)
    now = datetime.datetime(2021, 5, 31, 22, 30, 10)
    # far ranges take long, and hours of today only mean something when there's one end
    if first is None:
        first = floor(now) if last is None else None
        given_s, first, how_s = (None, floor(now), "none") if last is None else (start, floor(start), "datetime")
    if last is None:
        if how_s != "none":
            now = first + datetime.timedelta(hours=rng.choice([0, 3, 50, -2]), minutes=rng.randint(0, 59))
        last = floor(now)
    detail = dict(start=repr(given_s), end=repr(given_e), now=str(now))

    def go():
        with frozen(now):
            return list(date_range(given_s, given_e))

    if given_s is not None and given_e is not None:
        go = lambda: list(date_range(given_s, given_e))  # noqa
    else:
        # under a frozen clock dates are of another class, so are given as text
        text = lambda d: d if d is None or isinstance(d, str) else d.isoformat()[:19]  # noqa
        given_s, given_e = text(given_s), text(given_e)
    if last < first:
        try:
            got = go()
            ctx.violation("a reversed range was accepted", got=len(got), **detail)
        except ValueError:
            ctx.count("reversed refused")
        ctx.seen(("reversed", str(detail)))
        return
    ok, got = ctx.guard("date_range", go, detail=detail)
    if not ok:
        return
    want, at = [], first
    while at <= last:
        want.append(at)
        at += datetime.timedelta(hours=1)
    got = [datetime.datetime(*d.timetuple()[:6], d.microsecond) for d in got]
    ctx.check(got == want, "a range is wrong", expected=f"{want[0]} .. {want[-1]}, {len(want)}", got=f"{got[:1]} .. {got[-1:]}, {len(got)}", **detail)
    ctx.count("ranges")
    ctx.seen(("range", str(detail)))
    back = start - datetime.timedelta(hours=rng.choice([1, 2, 30]))
    if back.date() != start.date() or rng.random() < 0.5:
        try:
            got = list(date_range(start, back))
            ctx.violation("a reversed range was accepted", start=str(start), end=str(back), got=len(got))
        except ValueError:
            ctx.count("reversed refused")


def run(ctx):
    ctx.minimum = ctx.n(2000, 20000)
    ctx.deadline(8, 120)
    for case in range(ctx.n(8000, 300000)):
        if not ctx.more():
            break
        (iso, iso, values, delta, ranges)[case % 5](ctx, case)
    for how in ("range", "letter", "sign", "space", "underscore", "script", "separator", "short", "slash", "empty"):
        ctx.require("spoilt by " + how, 50)
    for name in ("dates read", "date values", "other values", "durations", "ranges", "reversed refused"):
        ctx.require(name, 100)
