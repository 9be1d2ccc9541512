"""
One case is a dataset of good blobs with damaged ones among them: truncated at every or a
random position, bits flipped, a broken line, bytes of another format, nothing but noise, or
a get which raises. A read (plain, filtered, selected) must complete and return every record
of the good blobs once, in order, unaltered; what it returns from a damaged line-based blob
must be a prefix of the records before the damage. Non-trivial when the damage made the blob
undecodable for the harness's own decoder; distinct by formats and damage.
"""

import io
import json
import lzma

import zstandard

from checks.c12 import FORMATS, plain
from vf import gen
from vf.codec import bag, diff, typed
from vf.store import StorageFault, Store, adapters

ASSUMPTIONS = [
    "for formats which aren't line-based (and csv, where damage can't be told from data) only the other blobs are judged",
    "damage to a line which leaves it valid JSON is not damage",
]

LINE_FORMS = ["jsonl", "zstd", "lzma"]


def encode(rng, form, lines):
    data = b"".join(line + b"\n" for line in lines)
    if form == "zstd":
        return zstandard.compress(data)
    if form == "lzma":
        return lzma.compress(data)
    return data


def is_json(line):
    try:
        json.loads(line)
        return True
    except ValueError:
        return False


def damaged_lines(rng, uid):
    """(name, data, records before the damage, description)"""
    form = rng.choice(LINE_FORMS)
    records = [gen.json_record(rng, f"{uid}.{i}") for i in range(rng.choice([1, 2, 6, 30]))]
    lines = [json.dumps(r).encode() for r in records]
    how = rng.choice(["truncate", "truncate", "line", "flip in line", "noise line", "flip"])
    at = rng.randrange(len(lines))
    if how == "truncate":
        data = encode(rng, form, lines)
        cut = rng.randrange(len(data))
        return form, data[:cut], records, (form, how, cut, len(data))
    if how == "line":
        bad = rng.choice([b"{broken", b"", b"\xff\xfe\x00", lines[at][:-1], b"{" + lines[at], lines[at] + b"}", b"{'_id': 1}", b"not json", lines[at][1:]])
        return form, encode(rng, form, lines[:at] + [bad] + lines[at:]), records[:at], (form, how, at, bad)
    if how == "flip in line":
        for _ in range(50):
            bad = bytearray(lines[at])
            bad[rng.randrange(len(bad))] ^= 1 << rng.randrange(8)
            if not is_json(bytes(bad)) and b"\n" not in bad and b"\r" not in bad:
                return form, encode(rng, form, lines[:at] + [bytes(bad)] + lines[at + 1:]), records[:at], (form, how, at)
        return form, encode(rng, form, lines[:at] + [b"{"]), records[:at], (form, how, at)
    if how == "noise line":
        noise = bytes(rng.randrange(256) for _ in range(rng.randint(1, 60))).replace(b"\n", b"").replace(b"\r", b"") + b"\x00"
        return form, encode(rng, form, lines[:at] + [noise] + lines[at:]), records[:at], (form, how, at)
    data = bytearray(encode(rng, form, lines))
    if form == "jsonl":
        return form, bytes(data[: len(data) // 2]), records, (form, "truncate", len(data) // 2)
    # in a compressed stream anything may come of it
    data[rng.randrange(len(data))] ^= 1 << rng.randrange(8)
    return form, bytes(data), None, (form, how)


def other_damage(rng, uid):
    form = rng.choice(sorted(FORMATS))
    data, _, _ = FORMATS[form](rng, uid)
    how = rng.choice(["truncate", "flip", "wrong format", "empty", "noise", "swap"])
    if how == "truncate":
        data = data[: rng.randrange(len(data) + 1)]
    elif how == "flip" and data:
        data = bytearray(data)
        for _ in range(rng.choice([1, 1, 5])):
            data[rng.randrange(len(data))] ^= 1 << rng.randrange(8)
        data = bytes(data)
    elif how == "wrong format":
        other = rng.choice(sorted(FORMATS))
        data = FORMATS[other](rng, uid)[0]
    elif how == "empty":
        data = b""
    elif how == "noise":
        data = bytes(rng.randrange(256) for _ in range(rng.randint(1, 200)))
    else:
        data = data[len(data) // 2:] + data[: len(data) // 2]
    return form, data, None, (form, how)


QUERIES = [
    ({}, lambda r: r),
    ({}, lambda r: r),
    ({"filters": "_id LIKE 'good%'"}, lambda r: r),
    ({"filters": [("good", "==", True)]}, lambda r: r),
    ({"select": "_id, good, n"}, lambda r: {k: r.get(k) for k in ("_id", "good", "n")}),
]


def one(ctx, case):
    from mabel import Reader

    rng = ctx.rng
    store = Store()
    inner = adapters(store)[1]
    kwargs, shape = rng.choice(QUERIES)
    good, bad = [], {}
    order = ["good"] * rng.randint(1, 5) + ["bad"] * rng.randint(1, 3)
    rng.shuffle(order)
    failing = {}
    damage = []
    for b, kind in enumerate(order):
        if kind == "good":
            records = [{"_id": f"good.{case}.{b}.{i}", "good": True, "n": gen.scalar(rng)} for i in range(rng.randint(1, 5))]
            form = rng.choice(["jsonl", "zstd", "lzma"])
            store.put(f"ds/damaged/{b:03d}.{form}", encode(rng, form, [json.dumps(r).encode() for r in records]))
            good += records
            continue
        choice = rng.random()
        if choice < 0.5:
            form, data, before, how = damaged_lines(rng, f"bad.{case}.{b}")
        elif choice < 0.85:
            form, data, before, how = other_damage(rng, f"bad.{case}.{b}")
        else:
            form, data, before, how = "jsonl", b'{"_id": "bad"}\n', [], ("get fails", rng.choice(["StorageFault", "KeyError", "FileNotFoundError", "ValueError", "TimeoutError", "PermissionError", "RuntimeError"]))
        name = f"ds/damaged/{b:03d}.{form}"
        store.put(name, data)
        if how[0] == "get fails":
            failing[name] = {"StorageFault": StorageFault}.get(how[1]) or getattr(__import__("builtins"), how[1])
            ctx.count("failed_gets")
        bad[b] = before
        damage.append(how)
        ctx.count("damaged_blobs")

    def before_get(name):
        if name in failing:
            raise failing[name]("injected")

    store.before_get = before_get
    detail = dict(order=order, damage=damage, query=kwargs)

    def read():
        return [plain(r) for r in Reader(dataset="ds/damaged", partitions=None, inner_reader=inner, **kwargs)]

    ok, got = ctx.guard("a read with damaged blobs", read, detail=detail)
    if not ok:
        return
    ours = [r for r in got if isinstance(r, dict) and str(r.get("_id")).startswith("good.")]
    want = [shape(r) for r in good]
    if [typed(r) for r in ours] != [typed(r) for r in want]:
        ctx.violation("damage to other blobs affected the records of a good blob", good=len(want), got=len(ours), **detail, **diff(bag(want), bag(ours)))
        return
    if not kwargs:
        # which damaged blob did the others come from
        for b, before in bad.items():
            if before is None:
                continue
            mine = [r for r in got if isinstance(r, dict) and str(r.get("_id")).startswith(f"bad.{case}.{b}.")]
            ctx.check([typed(r) for r in mine] == [typed(r) for r in before[: len(mine)]], "a damaged blob returned something other than its records before the damage",
                      blob=b, before=str(before)[:300], returned=str(mine)[:300], **detail)
            ctx.count("prefixes")
        if all(before is not None for before in bad.values()):
            strangers = [r for r in got if not (isinstance(r, dict) and str(r.get("_id")).startswith(("good.", "bad.")))]
            ctx.check(not strangers, "records were invented by damage", invented=str(strangers)[:300], **detail)
    ctx.count("good_records", len(ours))
    ctx.seen(detail, nontrivial=True, sample=detail)


def every_cut(ctx, case):
    """one blob truncated at every byte"""
    from mabel import Reader

    rng = ctx.rng
    form = LINE_FORMS[case % 3]
    records = [{"_id": i, "v": gen.scalar(rng), "o": {"a": [1]}} for i in range(3)]
    data = encode(rng, form, [json.dumps(r).encode() for r in records])
    for cut in range(len(data)):
        store = Store()
        store.put("ds/cut/a.jsonl", b'{"_id": "a"}\n')
        store.put(f"ds/cut/b.{form}", data[:cut])
        store.put("ds/cut/c.jsonl", b'{"_id": "c"}\n')
        ok, got = ctx.guard("read a truncated blob", lambda: [plain(r) for r in Reader(dataset="ds/cut", partitions=None, inner_reader=adapters(store)[1])])
        if not ok:
            return
        middle = got[1:-1]
        if got[:1] != [{"_id": "a"}] or got[-1:] != [{"_id": "c"}] or len(got) < 2 or middle != records[: len(middle)]:
            ctx.violation("a truncated blob affected the others, or returned more than its records", form=form, cut=cut, of=len(data), got=got)
            return
        ctx.count("cuts")
        ctx.seen(("cut", form, cut, len(data)))


def run(ctx):
    ctx.minimum = 150
    ctx.deadline(14, 420)
    for case in range(ctx.n(3, 30)):
        every_cut(ctx, case)
    for case in range(ctx.n(1800, 40000)):
        if not ctx.more():
            break
        one(ctx, case)
    ctx.require("damaged_blobs", 300)
    ctx.require("failed_gets", 50)
    ctx.require("prefixes", 100)
    ctx.require("cuts", 100)
