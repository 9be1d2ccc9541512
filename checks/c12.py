"""
One case is a folder of blobs of all supported formats, encoded by the harness (standard
library and the compression libraries, never mabel), in many dialects: terminated or not,
LF or CRLF, several compression levels, frames, streams, row groups and zip members, unicode,
embedded quotes and new lines, no records at all; among them unknown, control and index
files. Reads must return exactly the encoded records, in blob then record order, with and
without override_format. Distinct by formats, dialects and records; non-trivial when there
was at least one record.
"""

import csv
import io
import json
import lzma
import warnings
import zipfile
from xml.sax.saxutils import escape, quoteattr

import zstandard

from vf import gen
from vf.codec import typed
from vf.store import Store, adapters

ASSUMPTIONS = [
    "a json blob holds one object, a text blob is one record (bytes), csv values are text",
    "xml follows the library's convention: attributes are @name, text beside attributes or children is #text, repeats are lists",
    "blobs must have a supported extension to be read with override_format",
]


def records_for(rng, uid):
    out = []
    for i in range(rng.choice([0, 1, 1, 2, 5, 30] if rng.random() < 0.985 else [3000])):
        out.append(gen.json_record(rng, f"{uid}.{i}"))
    if out and rng.random() < 0.03:
        rng.choice(out)["long"] = long_text(rng)
    return out


def long_text(rng):
    """longer than any buffer which is likely to be used"""
    return rng.choice(["x", "é", "漢", "xyz ", "a,'b"]) * rng.choice([20_000, 70_000, 150_000, 1_100_000])


def json_lines(rng, records):
    newline = rng.choice([b"\n", b"\n", b"\r\n"])
    lines = [json.dumps(r, ensure_ascii=rng.random() < 0.5, separators=rng.choice([(",", ":"), (", ", ": ")])).encode("utf8") for r in records]
    data = newline.join(lines)
    terminated = rng.random() < 0.5
    if records and terminated:
        data += newline
    return data, ("crlf" if newline != b"\n" else "lf", "terminated" if terminated else "open")


def do_jsonl(rng, uid):
    records = records_for(rng, uid)
    data, how = json_lines(rng, records)
    return data, records, how


def do_json(rng, uid):
    record = gen.json_record(rng, uid)
    indent = rng.choice([None, 2])
    return json.dumps(record, indent=indent).encode() + rng.choice([b"", b"\n"]), [record], ("indent" if indent else "flat",)


def do_txt(rng, uid):
    data = f"{uid} some text\nover é lines\n".encode() * rng.randint(1, 3)
    return data, [data], ()


def do_zstd(rng, uid):
    records = records_for(rng, uid)
    data, how = json_lines(rng, records)
    kind = rng.choice(["one", "one", "stream", "frames"])
    level = rng.choice([1, 3, 19])
    if kind == "one":
        out = zstandard.ZstdCompressor(level=level, write_checksum=rng.random() < 0.5).compress(data)
    elif kind == "stream":
        buffer = io.BytesIO()
        with zstandard.ZstdCompressor(level=level).stream_writer(buffer, closefd=False) as w:
            w.write(data)
        out = buffer.getvalue()
    else:
        cut = rng.randint(0, len(data))
        out = zstandard.ZstdCompressor(level=level).compress(data[:cut]) + zstandard.ZstdCompressor(level=1).compress(data[cut:])
    return out, records, how + (kind, level)


def do_lzma(rng, uid):
    records = records_for(rng, uid)
    data, how = json_lines(rng, records)
    kind = rng.choice(["xz", "alone", "streams"])
    if kind == "xz":
        out = lzma.compress(data, preset=rng.choice([0, 6]))
    elif kind == "alone":
        out = lzma.compress(data, format=lzma.FORMAT_ALONE)
    else:
        cut = rng.randint(0, len(data))
        out = lzma.compress(data[:cut]) + lzma.compress(data[cut:])
    return out, records, how + (kind,)


def do_csv(rng, uid):
    columns = ["_id", "a", "b c", "ключ"][: rng.randint(1, 4)]
    long = False
    records = []
    quoting = rng.choice([csv.QUOTE_ALL, csv.QUOTE_MINIMAL])
    for i in range(rng.choice([0, 1, 3, 10])):
        record = {c: f"{uid}.{i}" if c == "_id" else gen.word(rng).replace("\x00", "") for c in columns}
        if quoting == csv.QUOTE_ALL:
            if "a" in record and rng.random() < 0.2:
                record["a"] = rng.choice(["one\r\ntwo", "\r\n", "a\rb", "\n\r", "last\r"])
        else:
            # carriage returns have to be in quotes
            record = {c: v.replace("\r", "") for c, v in record.items()}
        records.append(record)
    if records and rng.random() < 0.06:
        rng.choice(records)[rng.choice(columns)] = long_text(rng)
        long = True
    buffer = io.StringIO(newline="")
    ending = rng.choice(["\n", "\r\n"])
    writer = csv.DictWriter(buffer, columns, quoting=quoting, lineterminator=ending)
    writer.writeheader()
    writer.writerows(records)
    text = buffer.getvalue()
    if rng.random() < 0.4 and text.endswith(ending):
        text = text[: -len(ending)]
    return text.encode("utf8"), records, (quoting, ending, long)


def xml_value(rng, depth, spaces=("",)):
    """(xml text, what it is), the names are in any of the namespaces"""
    tag_names = ["a", "b", "item", "Name", "ns"]
    attributes = {k: rng.choice(["1", "x y", "<&\"'>", "é"]) for k in rng.sample(["id", "type"], rng.choice([0, 0, 1, 2]))}
    text = rng.choice(["", "text", "a & b < c", "漢字", "12"])
    children = []
    if depth > 0 and rng.random() < 0.6:
        for _ in range(rng.randint(1, 4)):
            children.append((rng.choice(tag_names), *xml_value(rng, depth - 1, spaces), rng.choice(spaces)))
    inner = "".join(f"<{p}{t}{attrs}>{body}</{p}{t}>" for t, (attrs, body), _, p in children)
    if children:
        text = ""
    attrs = "".join(f" {rng.choice(spaces)}{k}={quoteattr(v)}" for k, v in attributes.items())
    xml = (attrs, (escape(text) if text else "") + inner)
    if not children and not attributes:
        value = text if text else None
    else:
        value = {}
        for tag, _, child, _ in children:
            if tag in value:
                if not isinstance(value[tag], Many):
                    value[tag] = Many([value[tag]])
                value[tag].append(child)
            else:
                value[tag] = child
        value = {k: list(v) if isinstance(v, Many) else v for k, v in value.items()}
        for k, v in attributes.items():
            value["@" + k] = v
        if text and attributes:
            value["#text"] = text
    return xml, value


class Many(list):
    pass


def namespaces(rng):
    """-> prefixes to choose from, how they're declared"""
    if rng.random() < 0.5:
        return ("",), rng.choice(["", "", ' xmlns="urn:default"'])
    return ("", "p:", "q:"), ' xmlns:p="http://example.com/p" xmlns:q="urn:q"' + rng.choice(["", ' xmlns="urn:default"'])


def do_xml(rng, uid):
    spaces, declared = namespaces(rng)
    (attrs, body), value = xml_value(rng, 2, spaces)
    declaration = rng.choice(["", '<?xml version="1.0" encoding="UTF-8"?>'])
    root = rng.choice(spaces) + "root"
    return f"{declaration}<{root}{declared}{attrs}>{body}</{root}>".encode("utf8"), [{"root": value}], (len(spaces), bool(declared))


def do_lxml(rng, uid):
    lines, records = [], []
    for _ in range(rng.choice([0, 1, 3])):
        spaces, declared = namespaces(rng)
        (attrs, body), value = xml_value(rng, 1, spaces)
        lines.append(f"<r{declared}{attrs}>{body}</r>")
        records.append({"r": value})
    return "\n".join(lines).encode("utf8") + (b"\n" if lines and rng.random() < 0.5 else b""), records, ()


def do_parquet(rng, uid):
    import pyarrow
    import pyarrow.parquet

    kinds = {"VARCHAR": pyarrow.string(), "INTEGER": pyarrow.int64(), "BOOLEAN": pyarrow.bool_(), "DOUBLE": pyarrow.float64(),
             "TIMESTAMP": pyarrow.timestamp("us"), "DATE": pyarrow.date32(), "ARRAY": pyarrow.list_(pyarrow.string()), "BLOB": pyarrow.binary()}
    columns = [("_id", "VARCHAR")] + [(f"c{i}", rng.choice(sorted(kinds))) for i in range(rng.randint(0, 4))]
    records = []
    for i in range(rng.choice([0, 1, 5, 40])):
        records.append({n: f"{uid}.{i}" if n == "_id" else gen.typed_value(rng, k) for n, k in columns})
    table = pyarrow.Table.from_pylist(records, schema=pyarrow.schema([(n, kinds[k]) for n, k in columns]))
    buffer = io.BytesIO()
    options = dict(compression=rng.choice(["snappy", "zstd", "none", "gzip"]), row_group_size=rng.choice([1, 3, 1000]), use_dictionary=rng.random() < 0.5)
    pyarrow.parquet.write_table(table, buffer, **options)
    return buffer.getvalue(), records, tuple(options.values())


SIMPLE = {"jsonl": do_jsonl, "json": do_json, "txt": do_txt, "csv": do_csv, "xml": do_xml, "lxml": do_lxml, "zstd": do_zstd, "lzma": do_lzma, "parquet": do_parquet}


def do_zip(rng, uid, depth=0):
    buffer = io.BytesIO()
    records, members, names = [], [], []
    with zipfile.ZipFile(buffer, "w", rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA])) as z:
        for m in range(rng.choice([0, 1, 2, 4, 4] + [40] * (depth == 0 and rng.random() < 0.05))):
            form = rng.choice(sorted(SIMPLE))
            if depth < 2 and rng.random() < 0.1:
                form = "zip"
                data, held, _ = do_zip(rng, f"{uid}.{m}", depth + 1)
            else:
                data, held, _ = SIMPLE[form](rng, f"{uid}.{m}")
            name = rng.choice(["", "folder/", "a.b/"]) + f"m{m}.{form}"
            again = [n for n in names if n.endswith("." + form)]
            if again and rng.random() < 0.2:
                # members can have the same name
                name = rng.choice(again)
            names.append(name)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                z.writestr(name, data)
            records += held
            members.append(form)
        if rng.random() < 0.3:
            z.writestr("readme.md", "not data")
            z.writestr("frame.complete", "")
            members.append("other")
    return buffer.getvalue(), records, tuple(members)


FORMATS = {**SIMPLE, "zip": do_zip}
OTHER = ["x.md", "noextension", "x.jsonl.bak", "x.manifest", "x.jsonl.idx", "frame.complete", "frame.ignore", "x.gz", "x.JSONLX", "x.idx", "jsonl", "x.jsonl.tmp"]


def plain(record):
    return record.as_dict() if hasattr(record, "as_dict") else record


def one(ctx, case):
    from mabel import Reader

    rng = ctx.rng
    store = Store()
    inner_reader = adapters(store)[1]
    forms = [rng.choice(sorted(FORMATS))] if case % 2 else [rng.choice(sorted(FORMATS)) for _ in range(rng.randint(2, 6))]
    expected, hows = [], []
    blobs = []
    for b, form in enumerate(forms):
        data, records, how = FORMATS[form](rng, f"{case}.{b}")
        store.put(f"ds/formats/{b:03d}.{form}", data)
        expected += records
        hows.append((form,) + tuple(how))
        blobs.append((form, len(records)))
        ctx.count(f"blobs_{form}")
    for name in OTHER:
        if rng.random() < 0.3:
            store.put(f"ds/formats/{rng.randint(0, 3):03d}{name}", b'{"_id": "must never be read"}\n')
            ctx.count("other_files")

    def read():
        return [plain(r) for r in Reader(dataset="ds/formats", partitions=None, inner_reader=inner_reader)]

    ok, got = ctx.guard("read formats", read, detail={"formats": hows})
    if not ok:
        return
    if [typed(r) for r in got] != [typed(r) for r in expected]:
        at = next((i for i, (a, b) in enumerate(zip(got, expected)) if typed(a) != typed(b)), min(len(got), len(expected)))
        ctx.violation("blobs didn't decode to exactly their records", formats=hows, want=len(expected), got=len(got), first_difference=at,
                      wanted=str(expected[at : at + 1])[:400], was=str(got[at : at + 1])[:400], blobs=blobs)
    ctx.count("records", len(got))
    ctx.seen((hows, [str(r) for r in expected[:4]]), nontrivial=bool(expected), sample={"formats": hows, "records": len(expected)})


def override(ctx, case):
    """the name says one thing, the caller knows better"""
    from mabel import Reader

    rng = ctx.rng
    form = rng.choice(["jsonl", "json", "txt", "csv", "zstd", "lzma", "parquet", "xml", "lxml", "zip"])
    written_as = rng.choice(["txt", "json", "jsonl", "csv", "parquet", "zip"])
    data, records, how = FORMATS[form](rng, f"{case}")
    store = Store()
    store.put(f"ds/formats/a.{written_as}", data)
    name = rng.choice([form, "." + form, form.upper()])

    def read():
        return [plain(r) for r in Reader(dataset="ds/formats", partitions=None, inner_reader=adapters(store)[1], override_format=name)]

    ok, got = ctx.guard("read with override_format", read, detail={"format": form, "extension": written_as})
    if ok:
        ctx.check([typed(r) for r in got] == [typed(r) for r in records], "override_format wasn't how blobs were decoded", override=name, extension=written_as,
                  how=how, want=str(records[:2]), got=str(got[:2]), counts=[len(records), len(got)])
        ctx.count("overrides")
        ctx.seen(("override", form, written_as, how, len(records)), nontrivial=bool(records))


def run(ctx):
    ctx.minimum = 150
    ctx.deadline(14, 420)
    for case in range(ctx.n(1800, 40000)):
        if not ctx.more():
            break
        one(ctx, case)
        if case % 3 == 0:
            override(ctx, case)
    for form in FORMATS:
        ctx.require(f"blobs_{form}", 20)
    ctx.require("overrides", 50)
    ctx.require("other_files", 100)
