"""
One case is a dataset with some kind of content on some of the days around the day asked for
(plain blobs, complete, incomplete, ignored and empty frames, BACKOUT data, by_hour partitions,
control and unknown files) and a series of reads of it: any limit, the day given in any form or
left out under a frozen clock, through Reader, a storage class or SqlReader. The oracle knows
which records are each day's data, finds the newest day within the limit, and the storage
records which blobs were read. Non-trivial when a read had to step back, or found nothing; distinct by
the layout, day and limit.
"""

import datetime
import json

from vf.clock import frozen
from vf.store import Store, adapters

ASSUMPTIONS = [
    "the age of a day's data is in whole days before the day asked for",
    "partitions are days; data is a readable blob of a frame which would be read",
    "a limit of a second or less doesn't step back",
]

LIMITS = {"": 0, "1s": 1, "0d": 0, "1m": 60, "12h": 43200, "23h59m59s": 86399, "24h": 86400, "1d": 86400, "1d12h": 129600, "36h": 129600, "47h59m": 172740, "2d": 172800, "3d": 259200, "72h": 259200,
          "5d6h30m": 477000, "6d": 518400, "7d": 604800, "10d": 864000, "40d": 3456000, "144h": 518400}

TEMPLATES = [["year_{yyyy}/month_{mm}/day_{dd}"], ["year_{yyyy}", "month_{mm}", "day_{dd}"], ["{yyyy}-{mm}-{dd}"], ["dt={yyyy}{mm}{dd}"], None]
FORMAT = {"year_{yyyy}/month_{mm}/day_{dd}": "year_%Y/month_%m/day_%d", "{yyyy}-{mm}-{dd}": "%Y-%m-%d", "dt={yyyy}{mm}{dd}": "dt=%Y%m%d"}


def content(rng, kind, folder, uid):
    """(blobs, the ids which are this day's data)"""
    blobs, ids = {}, []

    def blob(name, mine, size=None):
        out = []
        for _ in range(size or rng.randint(1, 4)):
            uid[0] += 1
            out.append({"_id": uid[0]})
            if mine:
                ids.append(uid[0])
        blobs[folder + name] = ("\n".join(map(json.dumps, out)) + "\n").encode()

    if kind == "blobs":
        for i in range(rng.randint(1, 3)):
            blob(f"/blob-{i}.jsonl", True)
    elif kind == "frame":
        blob("/as_at_20200101-000000/a.jsonl", False)
        blobs[folder + "/as_at_20200101-000000/frame.complete"] = b""
        blob("/as_at_20200102-000000/a.jsonl", True)
        blobs[folder + "/as_at_20200102-000000/frame.complete"] = b""
        if rng.random() < 0.5:
            blob("/as_at_20200103-000000/a.jsonl", False)
    elif kind == "incomplete":
        blob("/as_at_20200102-000000/a.jsonl", False)
    elif kind == "ignored":
        blob("/as_at_20200102-000000/a.jsonl", False)
        blobs[folder + "/as_at_20200102-000000/frame.complete"] = b""
        blobs[folder + "/as_at_20200102-000000/frame.ignore"] = b""
    elif kind == "empty frame":
        blobs[folder + "/as_at_20200102-000000/frame.complete"] = b""
    elif kind == "backout":
        blob("/BACKOUT/a.jsonl", False)
    elif kind == "partitions":
        for hour in rng.sample(["00", "07", "23"], rng.randint(1, 3)):
            blob(f"/by_hour/hour={hour}/a.jsonl", True)
    elif kind == "partition frames":
        blob("/by_hour/hour=01/as_at_20200102-000000/a.jsonl", False)
        blob("/by_hour/hour=02/as_at_20200102-000000/a.jsonl", True)
        blobs[folder + "/by_hour/hour=02/as_at_20200102-000000/frame.complete"] = b""
    elif kind == "unknown files":
        blobs[folder + "/readme.md"] = b"not data"
        blobs[folder + "/noextension"] = b'{"_id": 0}'
    elif kind == "control files":
        blobs[folder + "/a.jsonl.idx"] = b"idx"
        blobs[folder + "/x.manifest"] = b""
    return blobs, ids


KINDS = ["blobs", "blobs", "frame", "incomplete", "ignored", "empty frame", "backout", "partitions", "partition frames", "unknown files", "control files"]


def one(ctx, case):
    from mabel import Reader, SqlReader
    from mabel.data.internals.dictset import STORAGE_CLASS
    from mabel.errors import DataNotFoundError

    rng = ctx.rng
    store = Store()
    inner = adapters(store)[1]
    template = rng.choice(TEMPLATES)
    pattern = FORMAT["/".join(template or TEMPLATES[0])]
    asked = rng.choice([datetime.date(2021, 3, 3), datetime.date(2020, 3, 1), datetime.date(2022, 1, 2), datetime.date(2021, 7, 15), datetime.date(2024, 12, 31)])
    uid = [0]
    data, kinds = {}, {}
    offsets = rng.sample(range(-12, 4), rng.randint(0, 5))
    if rng.random() < 0.1:
        offsets.append(-40)
    if rng.random() < 0.6:
        offsets = [o for o in offsets if o]
    for offset in offsets:
        day = asked + datetime.timedelta(days=offset)
        kind = rng.choice(KINDS)
        blobs, ids = content(rng, kind, "ds/events/" + day.strftime(pattern), uid)
        for name, value in blobs.items():
            store.put(name, value)
        kinds[offset] = kind
        if ids:
            data[offset] = ids
    # another dataset, never to be read
    for name, value in content(rng, "blobs", "ds/events2/" + asked.strftime(pattern), uid)[0].items():
        store.put(name, value)

    for limit in rng.sample(list(LIMITS), 5):
        seconds = LIMITS[limit]
        reach = seconds // 86400 if seconds > 1 else 0
        found = [offset for offset in sorted(data, reverse=True) if -reach <= offset <= 0]
        expected = data[found[0]] if found else None
        how = rng.choice(["reader", "reader", "reader", "class", "sql"])
        form = rng.choice(["date", "text", "datetime", "time", "today"])
        kwargs = {"inner_reader": inner}
        if template is not None:
            kwargs["partitions"] = list(template)
        if limit or rng.random() < 0.5:
            kwargs["freshness_limit"] = limit
        day = {"date": asked, "text": asked.isoformat(), "datetime": datetime.datetime(asked.year, asked.month, asked.day), "time": datetime.datetime(asked.year, asked.month, asked.day, 13, 30), "today": None}[form]
        if day is not None:
            kwargs["start_date"] = kwargs["end_date"] = day

        def read():
            if how == "sql":
                if kwargs.get("start_date") is not None:
                    kwargs["start_date"] = kwargs["end_date"] = asked.isoformat()
                return [r["_id"] for r in SqlReader("SELECT * FROM ds.events", **kwargs)]
            if how == "class":
                kwargs["persistence"] = STORAGE_CLASS.MEMORY
            return [r["_id"] for r in Reader(dataset="ds/events", **kwargs)]

        detail = dict(asked=str(asked), form=form, limit=limit, how=how, days=str(sorted(kinds.items())), template=template)
        before = len(store.events)
        try:
            if form == "today":
                with frozen(datetime.datetime(asked.year, asked.month, asked.day, rng.choice([0, 11, 23]), 59, 59)):
                    got = read()
            else:
                got = read()
        except DataNotFoundError:
            got = None
        except Exception as err:  # noqa
            ctx.violation(f"a read with a limit failed: {type(err).__name__}: {err}", **detail)
            continue
        touched = {e[2] for e in store.events[before:] if e[1] == "get"}
        if expected is None:
            ctx.check(got is None, "there's no data within the limit, but some was returned", got=str(got), **detail)
            ctx.count("nothing found")
        elif ctx.check(got is not None, "the data within the limit wasn't found", expected=found[0], **detail):
            ctx.check(sorted(got) == sorted(expected), "these aren't the records of the most recent day with data", got=str(got), expected=str(expected), day=found[0], **detail)
            ctx.count(f"stepped back {min(-found[0], 3)}")
        allowed = "ds/events/" + (asked + datetime.timedelta(days=found[0])).strftime(pattern) + "/" if found else None
        strays = [name for name in touched if allowed is None or not name.startswith(allowed)]
        ctx.check(not strays, "blobs of another day were read", blobs=strays[:4], **detail)
        ctx.count("asked for today", form == "today")
        ctx.seen((str(asked), form, limit, how, sorted(kinds.items())), nontrivial=not found or found[0] < 0)


def run(ctx):
    ctx.minimum = ctx.n(300, 5000)
    ctx.deadline(12, 180)
    for case in range(ctx.n(1500, 40000)):
        if not ctx.more():
            break
        one(ctx, case)
    ctx.require("nothing found", 100)
    ctx.require("asked for today", 50)
    for steps in range(4):
        ctx.require(f"stepped back {steps}", 20)
