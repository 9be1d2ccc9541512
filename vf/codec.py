"""
Decoders which share no code with mabel, used to see what was really put in storage.
"""

import io
import json


def decode_blob(name, data):
    """-> list of records"""
    if name.endswith(".parquet"):
        import pyarrow.parquet as pq

        return pq.read_table(io.BytesIO(data)).to_pylist()
    if name.endswith(".zstd"):
        import zstandard

        data = zstandard.ZstdDecompressor().stream_reader(io.BytesIO(data)).read()
        name = name[: -len(".zstd")]
    if name.endswith(".txt"):
        return [line for line in data.split(b"\n")[:-1]]
    if name.endswith(".jsonl"):
        return [json.loads(line) for line in data.split(b"\n")[:-1]]
    raise ValueError(name)


def payload(name, data):
    if name.endswith(".zstd"):
        import zstandard

        return zstandard.ZstdDecompressor().stream_reader(io.BytesIO(data)).read()
    return data


def typed(value):
    """
    A hashable rendering which keeps types apart: 1, 1.0, True and "1" are all different
    """
    if isinstance(value, dict):
        return ("d", tuple(sorted((k, typed(v)) for k, v in value.items())))
    if isinstance(value, (list, tuple)):
        return ("l", tuple(typed(v) for v in value))
    if isinstance(value, bool):
        return ("b", value)
    if isinstance(value, float):
        return ("f", repr(value))
    return (type(value).__name__, value)


def bag(records):
    """a multiset"""
    from collections import Counter

    return Counter(typed(r) for r in records)


def diff(expected, actual, limit=3):
    """how two bags differ, for the violation"""
    return {
        "missing": [repr(k)[:300] for k in list((expected - actual).elements())[:limit]],
        "unexpected": [repr(k)[:300] for k in list((actual - expected).elements())[:limit]],
        "missing_count": sum((expected - actual).values()),
        "unexpected_count": sum((actual - expected).values()),
    }


def flat_model(value, prefix=None):
    """what a flattened record is"""
    out = {}
    items = value.items() if isinstance(value, dict) else enumerate(value)
    for k, v in items:
        key = str(k) if prefix is None else f"{prefix}.{k}"
        if isinstance(v, (dict, list)):
            out.update(flat_model(v, key))
        else:
            out[key] = v
    return out
