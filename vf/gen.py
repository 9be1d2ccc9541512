"""
Workload generators. Every record carries a unique id, so each read identifies its write.
"""

import datetime

WORDS = ["alpha", "Beta", "gamma delta", "x", "", "O'Neil", 'say "hi"', "naïve", "日本語", "emoji 😀",
         "tab\tin", "new\nline", "cr\r\nlf", "back\\slash", "per%cent", "under_score", "a,b;c", "{brace}",
         "\u2028sep", "\x85nel", "nul\x00byte", "null", "None", "true", "0", "-1", "3.14", "1e5", "2021-02-03",
         "trailing ", " leading", "<b>&amp;</b>", "a/b", "..", "BACKOUT", "as_at_1", "\x1f", "\x1c"]
INTS = [0, 1, -1, 2, 7, 10, 255, 256, -256, 2**31 - 1, 2**31, -(2**31), 2**53, -(2**53), 2**53 + 1, 2**63 - 1, -(2**63)]
FLOATS = [0.0, -0.0, 1.0, -1.5, 0.1, 1e-9, 1e16, 123456789.125, -1e300, 5e-324, 3.0]


def word(rng):
    if rng.random() < 0.6:
        return rng.choice(WORDS)
    if rng.random() < 0.3:
        return anything(rng)
    return "".join(rng.choice("abcXYZ019 _-.,/\\\"'é漢\n\t") for _ in range(rng.randint(0, 30)))


def anything(rng, longest=20, unprintable=True):
    """text of any characters"""
    out = []
    for _ in range(rng.randint(0, longest)):
        k = rng.random()
        if k < 0.8:
            out.append(chr(rng.randint(32, 126)))
        elif k < 0.87 and unprintable:
            out.append(chr(rng.choice([*range(32), 127, 128, 159, 160, 173])))
        elif k < 0.97:
            # without surrogates, which can't be encoded
            out.append(chr(rng.choice([rng.randint(161, 0x24F), rng.randint(0x250, 0xD7FF), rng.randint(0xE000, 0xFFFD)])))
        else:
            out.append(chr(rng.randint(0x10000, 0x1FFFF)))
    return "".join(out)


def scalar(rng):
    k = rng.random()
    if k < 0.35:
        return word(rng)
    if k < 0.6:
        return rng.choice(INTS) if rng.random() < 0.5 else rng.randint(-1000, 1000)
    if k < 0.75:
        return rng.choice(FLOATS) if rng.random() < 0.5 else rng.uniform(-1e6, 1e6)
    if k < 0.88:
        return rng.random() < 0.5
    return None


def json_value(rng, depth=2):
    k = rng.random()
    if depth > 0 and k < 0.12:
        return [json_value(rng, depth - 1) for _ in range(rng.randint(0, 4))]
    if depth > 0 and k < 0.24:
        return {rng.choice("abcdef") + str(i): json_value(rng, depth - 1) for i in range(rng.randint(0, 3))}
    return scalar(rng)


def json_record(rng, uid):
    record = {"_id": uid}
    for i in range(rng.randint(0, 5)):
        record[rng.choice(["a", "b", "name", "Value", "with space", "ключ", "f.dot"]) + rng.choice(["", "1"])] = json_value(rng)
    return record


SCHEMA_TYPES = ["VARCHAR", "INTEGER", "BOOLEAN", "DOUBLE", "TIMESTAMP", "DATE", "ARRAY", "BLOB"]


def typed_value(rng, kind, null=0.15):
    if rng.random() < null:
        return None
    if kind == "VARCHAR":
        return word(rng)
    if kind == "INTEGER":
        return rng.choice(INTS) if rng.random() < 0.4 else rng.randint(-10000, 10000)
    if kind == "BOOLEAN":
        return rng.random() < 0.5
    if kind == "DOUBLE":
        return rng.choice(FLOATS) if rng.random() < 0.4 else rng.uniform(-1e6, 1e6)
    if kind == "TIMESTAMP":
        return datetime.datetime(2000, 1, 1) + datetime.timedelta(
            days=rng.randint(-9000, 9000), seconds=rng.randint(0, 86399), microseconds=rng.choice([0, 1, 999999])
        )
    if kind == "DATE":
        return datetime.date(2000, 1, 1) + datetime.timedelta(days=rng.randint(-9000, 9000))
    if kind == "ARRAY":
        return [word(rng) for _ in range(rng.randint(0, 4))]
    if kind == "BLOB":
        return bytes(rng.randint(0, 255) for _ in range(rng.randint(0, 12)))
    raise ValueError(kind)


def some_date(rng):
    special = [
        datetime.date(2020, 2, 29),
        datetime.date(2019, 12, 31),
        datetime.date(2020, 1, 1),
        datetime.date(1999, 1, 9),
        datetime.date(2024, 10, 10),
        datetime.date(2021, 11, 1),
    ]
    if rng.random() < 0.5:
        return rng.choice(special)
    return datetime.date(2000, 1, 1) + datetime.timedelta(days=rng.randint(0, 12000))
