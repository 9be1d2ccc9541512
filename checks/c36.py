"""
Random helpers: one case is a batch of calls with one set of arguments; every value is checked
for range, membership or length, small ranges and option lists have to be reached completely
(after as many calls as make a miss less likely than one in 10**12), wide ones in each of their
sixteenths, and strings and 64 bit integers never repeat, in this process or in forked ones.
bytes_to_int is compared with a sum of powers. Contexts: one case is a folder with a generated
configuration file (good, malformed or missing) at some depth, and generated arguments, against
the merge of both. Non-trivial when more than one value is possible; distinct by the arguments.
"""

import base64
import json
import math
import os
import string

from vf import gen
from vf.codec import typed

ASSUMPTIONS = [
    "bounds are integers, the lower first, less than 2**64 apart; there's at least one option",
    "strings are encoded by base64 (standard or for URLs), base32 or base16",
    "there's one configuration file of the name, below the working folder, not in a hidden folder, its name has no wildcards",
]

ALPHABETS = {
    "b64encode": set(string.ascii_letters + string.digits + "+/"),
    "urlsafe_b64encode": set(string.ascii_letters + string.digits + "-_"),
    "b32encode": set(string.ascii_uppercase + "234567"),
    "b16encode": set("0123456789ABCDEF"),
}


def enough(n):
    """calls after which missing one of n equally likely values is less likely than 10**-12"""
    if n == 1:
        return 5
    return math.ceil((math.log(n) + 28) / -math.log(1 - 1 / n))


def ranges(ctx, case):
    from mabel.utils import entropy

    rng = ctx.rng
    low = rng.choice([0, 1, -1, -10, 5, 10**6, -(10**12), 2**63, rng.randint(-1000, 1000)])
    width = rng.choice([1, 2, 3, 5, 10, 16, 33, 100, 1000, 2**16, 2**31 + 1, 2**32, 2**53 + 1, 3 * 2**61, 2**64])
    high = low + width - 1
    parts = min(width, 40 if width <= 40 else 16)
    calls = enough(parts)
    seen = set()
    edges = [None, None]
    for _ in range(calls):
        ok, value = ctx.guard("random_range", entropy.random_range, low, high)
        if not ok:
            return
        if type(value) is not int or not low <= value <= high:
            ctx.violation("random_range left its bounds", low=low, high=high, value=value)
            return
        seen.add((value - low) * parts // width)
    ctx.check(len(seen) == parts, "parts of the range are never reached", low=low, high=high, parts=parts, missed=sorted(set(range(parts)) - seen)[:5], calls=calls)
    ctx.count("range_values", calls)
    ctx.seen(("range", low, high), nontrivial=width > 1, sample={"low": low, "high": high, "reached": len(seen)})


def choices(ctx, case):
    from mabel.utils import entropy

    rng = ctx.rng
    options = rng.choice([list("abc"), "xyz", ("a", 1), [None], [None, 0, "", False], [[1], {"a": 1}], "é日 ", list(range(rng.randint(1, 30))), ["same", "same", "other"]])
    calls = enough(len(options))
    reached = set()
    for _ in range(calls):
        ok, value = ctx.guard("random_choice", entropy.random_choice, options, detail={"options": options})
        if not ok:
            return
        found = [i for i, o in enumerate(options) if typed(o) == typed(value)]
        if not found:
            ctx.violation("random_choice returned something which isn't an option", options=options, value=value)
            return
        reached.update(found)
    ctx.check(len(reached) == len(options), "options are never chosen", options=options, never=[options[i] for i in range(len(options)) if i not in reached], calls=calls)
    ctx.count("choices", calls)
    ctx.seen(("choice", str(options)), nontrivial=len(options) > 1)


def strings(ctx, case, known):
    from mabel.utils import entropy

    rng = ctx.rng
    name = rng.choice(sorted(ALPHABETS))
    length = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, rng.randint(0, 3000)])
    how = rng.choice(["both", "both", "length", "none"])
    if how == "length":
        name = "b64encode"
        call = lambda: entropy.random_string(length)  # noqa
    elif how == "none":
        name, length = "b64encode", 64
        call = lambda: entropy.random_string()  # noqa
    else:
        call = lambda: entropy.random_string(length, getattr(base64, name))  # noqa
    ok, value = ctx.guard("random_string", call, detail={"length": length, "encoder": name})
    if not ok:
        return
    ctx.check(isinstance(value, str) and len(value) == length, "random_string hasn't the length asked for", asked=length, got=len(value), encoder=name, value=value[:80])
    ctx.check(set(value) <= ALPHABETS[name], "random_string has characters which aren't the encoder's", encoder=name, characters=sorted(set(value) - ALPHABETS[name])[:8], length=length)
    if length >= 16:
        ctx.check(value[:16] not in known, "a random string was repeated", value=value[:40])
        known.add(value[:16])
    if length >= 600:
        ctx.check(len(set(value)) == len(ALPHABETS[name]) or length < enough(len(ALPHABETS[name])), "characters are never used", encoder=name, length=length,
                  used=len(set(value)))
    ctx.count("strings")
    ctx.seen(("string", name, length, how), nontrivial=length > 0)


def integers(ctx):
    from mabel.utils import entropy

    values = [entropy.random_int() for _ in range(300)]
    ctx.check(all(type(v) is int and 0 <= v < 2**64 for v in values), "random_int isn't 64 bits", values=[v for v in values if not 0 <= v < 2**64][:3])
    ones = zeros = 0
    for v in values:
        ones |= v
        zeros |= ~v & (2**64 - 1)
    ctx.check(ones == zeros == 2**64 - 1, "bits of random_int never change", never_one=hex(~ones & (2**64 - 1)), never_zero=hex(~zeros & (2**64 - 1)))
    ctx.check(len(set(values)) == len(values), "random_int was repeated")
    ctx.count("integers", len(values))


def big_endian(ctx):
    from mabel.utils import entropy

    rng = ctx.rng
    for _ in range(60):
        data = bytes(rng.choice([0, 1, 127, 128, 255, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 2, 3, 4, 7, 8, 9, 16, 40])))
        want = 0
        for position, byte in enumerate(reversed(data)):
            want += byte * 256**position
        ok, got = ctx.guard("bytes_to_int", entropy.bytes_to_int, data)
        if ok:
            ctx.check(got == want, "bytes_to_int isn't big-endian", data=data.hex(), got=got, want=want)
        ctx.count("conversions")


def forked(ctx):
    """children of one process don't repeat each other"""
    from mabel.utils import entropy

    entropy.random_string(), entropy.random_int()
    answers = []
    for _ in range(3):
        reading, writing = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.write(writing, json.dumps([entropy.random_string(32), entropy.random_int(), [entropy.random_range(0, 10**15) for _ in range(3)]]).encode())
            finally:
                os._exit(0)
        os.close(writing)
        with os.fdopen(reading, "rb") as answer:
            answers.append(json.loads(answer.read() or b"null"))
        os.waitpid(pid, 0)
    ctx.check(None not in answers, "a child failed", answers=str(answers)[:200])
    flat = [json.dumps(part) for answer in answers if answer for part in answer]
    ctx.check(len(set(flat)) == len(flat), "forked processes got the same random values", answers=str(answers)[:400])
    ctx.count("forks", 3)


def configuration(rng):
    out = {}
    for key in rng.sample(["a", "b", "dataset", "nested", "é", "list", "config", "config_file", "x y"], rng.randint(0, 6)):
        out[key] = rng.choice([{}, None, {"deep": {"a": [1, 2]}}, {"k": gen.scalar(rng)}, gen.json_value(rng)]) if key == "config" or rng.random() < 0.3 else gen.json_value(rng)
    return out


def writable(value):
    """what JSON has words for"""
    return json.loads(json.dumps(value))


def contexts(ctx, case):
    from mabel.utils.common import build_context

    rng = ctx.rng
    root = os.path.join(ctx.scratch, f"context{case}")
    where = rng.choice(["", "a", "a/b", "deep/er/still", "with space", "é"])
    name = rng.choice(["config.json", "config.json", "job.json", "other.config", "no_extension", "ünï.json", "my config.json"])
    os.makedirs(os.path.join(root, where))
    arguments = {}
    for key in rng.sample(["a", "b", "run_date", "nested", "config", "x"], rng.randint(0, 4)):
        arguments[key] = gen.json_value(rng)
    # a file can be asked for by its name, or with the folders it is in
    asked = os.path.join(where, name) if where and rng.random() < 0.3 else name
    if name != "config.json" or rng.random() < 0.3:
        arguments["config_file"] = asked
    kind = rng.choice(["good", "good", "good", "good", "missing", "malformed", "not an object"])
    content = writable(configuration(rng))
    path = os.path.join(root, where, name)
    text = json.dumps(content, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 2]))
    if kind == "malformed":
        text = rng.choice(["", "{", text[:-1], text + "}", "{'a': 1}", "not json", '{"a": }', "{\"a\": 1,}", "\x00", "{} {}", "# c\n{}"])
    elif kind == "not an object":
        text = rng.choice(["[]", "[1]", "null", "3", '"text"', "true", "[{}]", "0", '""'])
    if kind != "missing":
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)
    elif rng.random() < 0.5:
        with open(path + ".bak", "w", encoding="utf-8") as f:
            f.write(text)
    for other in rng.sample(["config.json.txt", "xconfig.json", "job.json2"], rng.randint(0, 2)):
        with open(os.path.join(root, other), "w") as f:
            f.write('{"wrong": true}')
    detail = dict(where=where, name=name, kind=kind, text=text[:200], arguments=arguments)
    given = json.dumps(arguments, sort_keys=True)
    there = os.getcwd()
    os.chdir(root)
    try:
        expected = dict(content)
        if not expected.get("config"):
            expected["config"] = {}
        expected.update(arguments)
        try:
            got = build_context(**arguments)
            error = None
        except Exception as err:
            got, error = None, err
        if kind == "good":
            if error is not None:
                ctx.violation("a good configuration was refused", error=repr(error), **detail)
                return
            ctx.check(typed(got) == typed(expected), "the context isn't the file and the arguments", got=got, want=expected, **detail)
            # nothing is remembered
            changed = dict(content, changed=case)
            with open(path, "w", encoding="utf-8") as f:
                f.write(json.dumps(changed))
            ok, again = ctx.guard("build_context", lambda: build_context(**arguments), detail=detail)
            if ok:
                ctx.check(typed(again) == typed(dict(expected, **{"changed": case})), "the context isn't that of the file as it is now", got=again, **detail)
            ctx.count("contexts")
        elif kind == "missing":
            ctx.check(isinstance(error, IndexError) and name in str(error), "a missing configuration wasn't reported", got=got, error=repr(error), **detail)
            ctx.count("missing")
        else:
            ctx.check(isinstance(error, ValueError) and name in str(error), "a malformed configuration wasn't reported", got=got, error=repr(error), **detail)
            ctx.count("malformed")
        ctx.check(json.dumps(arguments, sort_keys=True) == given, "the arguments were changed", **detail)
    finally:
        os.chdir(there)
    ctx.seen(detail, nontrivial=bool(arguments or content), sample=detail)


def run(ctx):
    ctx.minimum = 300
    ctx.deadline(12, 300)
    known = set()
    integers(ctx)
    for case in range(ctx.n(1200, 20000)):
        if not ctx.more():
            break
        ranges(ctx, case)
        choices(ctx, case)
        for _ in range(6):
            strings(ctx, case, known)
        contexts(ctx, case)
        if case % 20 == 0:
            big_endian(ctx)
            forked(ctx)
            integers(ctx)
    for name, least in (("range_values", 10000), ("choices", 5000), ("strings", 500), ("contexts", 50), ("missing", 10), ("malformed", 25), ("forks", 9), ("conversions", 100)):
        ctx.require(name, least)
