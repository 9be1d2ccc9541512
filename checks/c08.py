"""
One case is a storage layout built by the harness (date folders by template, several blobs
per folder, other datasets, folders and files with lookalike names, BACKOUT and control
files) and a series of reads over date ranges given in every accepted form. The oracle is
the list of records the layout says belong to the range, in blob name then record order; it
has to be returned exactly, whatever order storage lists blobs in, or DataNotFoundError
raised when no blob is in the range. Non-trivial when records were expected and others had
to be left out; distinct by layout and range.
"""

import datetime
import json
import os
import random

from vf import gen
from vf.clock import frozen
from vf.store import Store, adapters

ASSUMPTIONS = [
    "dates are naive, and an end given as a date only covers the first hour of hourly ({HH}) templates",
    "templates with {MM} or {SS} ('not recommended' by the library) are not used",
]

TEMPLATES = [
    ["year_{yyyy}/month_{mm}/day_{dd}"],
    ["year_{yyyy}", "month_{mm}", "day_{dd}"],
    ["{yyyy}/{mm}/{dd}"],
    ["{yyyy}-{mm}-{dd}"],
    ["{yyyy}{mm}{dd}"],
    ["dt={yyyy}-{mm}-{dd}"],
    ["{dd}/{mm}/{yyyy}"],
    ["year_{yyyy}/month_{mm}"],
    ["year_{yyyy}/month_{mm}/day_{dd}/{HH}"],
    ["y{yyyy}/m{mm}/d{dd}", "h_{HH}"],
    None,
]


def fill(template, moment):
    """an independent date_format"""
    out = "/".join(template)
    return (
        out.replace("{yyyy}", str(moment.year)).replace("{mm}", str(moment.month).rjust(2, "0"))
        .replace("{dd}", str(moment.day).rjust(2, "0")).replace("{HH}", str(moment.hour).rjust(2, "0"))
    )


def shuffled(inner_reader, rng):
    class Shuffled(inner_reader):
        def get_blobs_at_path(self, path):
            names = list(super().get_blobs_at_path(path))
            rng.shuffle(names)
            return names

    return Shuffled


def express(rng, moment, hourly):
    """the same moment in one of the forms a caller may use"""
    forms = [moment, moment.isoformat()[:16], moment.isoformat(" ")[:19], moment.isoformat() + "Z"]
    if moment.hour == 0 and not hourly:
        forms += [moment.date(), moment.date().isoformat()] * 2
    return rng.choice(forms)


def one(ctx, case):
    from mabel import Reader
    from mabel.adapters.disk import DiskReader
    from mabel.errors import DataNotFoundError

    rng = ctx.rng
    template = rng.choice(TEMPLATES)
    hourly = bool(template) and "{HH}" in "".join(template)
    disk = rng.random() < 0.25
    root = os.path.join(ctx.scratch, f"c8-{case}") + "/" if disk else ""
    dataset = root + rng.choice(["ds/ev", "b/a/c/events", "data-1/x_y", "bucket/with space/n", "v1.0/ev/nts"])
    base = gen.some_date(rng)
    start_of_all = datetime.datetime(base.year, base.month, base.day)
    moments = []
    for _ in range(rng.randint(1, 12)):
        day = start_of_all + datetime.timedelta(days=rng.choice([0, 0, 1, 1, 2, 3, 9, 30, 31, 365, -1, -1, -2, -30, -365]))
        moments.append(day.replace(hour=rng.choice([0, 1, 2, 10, 20, 23])))
    blobs = {}  # name -> records
    other = {}
    uid = 0

    def content(n):
        nonlocal uid
        out = []
        for _ in range(n):
            uid += 1
            out.append({"_id": uid, "v": rng.choice(["x", "é", None, 1.5, [1], {"a": "b"}])})
        return out

    for moment in moments:
        folder = dataset + ("/" + fill(template, moment) if template else "")
        for _ in range(rng.randint(1, 3)):
            blobs[f"{folder}/{rng.choice(['', '', '', 'A', 'b-', 'Z_', '_', '.', 'é', 'frame-', '~'])}{rng.getrandbits(40):x}-{rng.randint(0, 99)}.jsonl"] = content(rng.choice([0, 1, 1, 2, 5]))
        if rng.random() < 0.3:
            other[f"{folder}/BACKOUT/{rng.getrandbits(40):x}.jsonl"] = content(1)
            other[f"{folder}/{rng.getrandbits(20):x}.jsonl.bak"] = content(1)
            other[f"{folder}/x.manifest"] = content(1)
            other[f"{folder}/x.jsonl.idx"] = content(1)
            other[f"{folder}/noextension"] = content(1)
        if rng.random() < 0.4 and template:
            for lookalike in (folder + "0", folder + "_old", folder[:-1], folder.replace(dataset, dataset + "2"), folder.replace(dataset, dataset[:-1]),
                              folder.replace(dataset, dataset + "/sub")):
                other[f"{lookalike}/{rng.getrandbits(40):x}.jsonl"] = content(1)
    folders = {n.rsplit("/", 1)[0] for n in blobs}
    # a lookalike may be a real folder of the layout (day_1 + 0)
    if template:
        real = {dataset + "/" + fill(template, start_of_all + datetime.timedelta(hours=h)) for h in range(-24 * 400, 24 * 400, 1 if hourly else 24)}
        other = {n: r for n, r in other.items() if n.rsplit("/", 1)[0] not in real or "." + n.rsplit(".", 1)[-1] != ".jsonl" or "BACKOUT" in n}
        other = {n: r for n, r in other.items() if not any(n.startswith(f + "/") for f in real) or n.rsplit("/", 1)[0] in folders or "/BACKOUT/" in n}
    else:
        other = {n: r for n, r in other.items() if not n.startswith(dataset + "/") or not n.endswith(".jsonl") or "BACKOUT" in n}

    store = Store()
    inner_reader = adapters(store)[1]
    for name, records in {**blobs, **other}.items():
        data = b"".join(json.dumps(r).encode() + b"\n" for r in records)
        if disk:
            os.makedirs(os.path.dirname(name), exist_ok=True)
            with open(name, "wb") as f:
                f.write(data)
        else:
            store.put(name, data)
    if disk:
        inner_reader = DiskReader

    for _ in range(4):
        a = rng.choice(moments) + datetime.timedelta(days=rng.choice([0, 0, 0, 1, -1]))
        b = rng.choice(moments) + datetime.timedelta(days=rng.choice([0, 0, 0, 1, -1]))
        if rng.random() < 0.3:
            b = a
        if not hourly and rng.random() < 0.5:
            a, b = a.replace(hour=0), b.replace(hour=0)
        kwargs = {"start_date": express(rng, a, hourly), "end_date": express(rng, b, hourly)}
        today = None
        if rng.random() < 0.25:
            # one or both dates are left to default to today
            today = rng.choice([a, b]).replace(minute=rng.choice([0, 59]), second=59)
            for missing in rng.choice([["start_date"], ["end_date"], ["start_date", "end_date"]]):
                del kwargs[missing]
                # a frozen clock replaces the date types, text is what it always is
                kwargs = {k: str(v) for k, v in kwargs.items()}
                if missing == "start_date":
                    a = today.replace(minute=0, second=0)
                else:
                    b = today.replace(minute=0, second=0)
        low, high = min(a, b), max(a, b)
        if template:
            in_range = set()
            at = low
            while at <= high:
                in_range.add(dataset + "/" + fill(template, at))
                at += datetime.timedelta(hours=1)
        else:
            in_range = {dataset}
        names = sorted(n for n in blobs if n.rsplit("/", 1)[0] in in_range)
        expected = [r for n in names for r in blobs[n]]
        detail = dict(template=template, dataset=dataset.replace(ctx.scratch, "$"), disk=disk, asked={k: str(v) for k, v in kwargs.items()}, today=str(today),
                      folders=sorted({n.rsplit("/", 1)[0].replace(ctx.scratch, "$") for n in blobs})[:20])

        def read():
            reader = Reader(dataset=dataset, partitions=template, inner_reader=shuffled(inner_reader, random.Random(rng.random())), **kwargs)
            try:
                return list(reader)
            except DataNotFoundError:
                return DataNotFoundError

        def go():
            if today is not None:
                with frozen(today):
                    return read()
            return read()

        ok, got = ctx.guard("read a date range", go, detail=detail)
        if not ok:
            return
        if not names:
            ctx.check(got is DataNotFoundError, "a range with nothing to read didn't raise DataNotFoundError", got=str(got)[:300], **detail)
            ctx.count("nothing_to_read")
        elif got is DataNotFoundError:
            ctx.violation("DataNotFoundError was raised for a range which has data", expected=len(expected), **detail)
        elif got != expected:
            ids, want = [r.get("_id") for r in got], [r["_id"] for r in expected]
            strangers = [r["_id"] for n, rs in {**blobs, **other}.items() for r in rs if n not in names]
            ctx.violation(
                "a read didn't return exactly the records of its dates, in order", expected=want[:50], got=ids[:50],
                missing=[i for i in want if i not in ids][:10], from_elsewhere=[i for i in ids if i in strangers][:10], repeated=len(ids) - len(set(ids)), **detail,
            )
        else:
            ctx.count("reads")
            ctx.count("records", len(got))
        left_out = len(names) < len(blobs) + len(other)
        ctx.seen((detail, len(expected)), nontrivial=bool(expected) and left_out, sample={**detail, "records": len(expected)})


def run(ctx):
    ctx.minimum = 100
    ctx.deadline(16, 420)
    for case in range(ctx.n(800, 20000)):
        if not ctx.more():
            break
        one(ctx, case)
    ctx.require("reads", 80)
    ctx.require("nothing_to_read", 8)
