"""
One case is a list of records with hostile headings and values (markup, quotes, entities, box
drawing characters, nested values, missing columns, None), held as a list, a generator or
persisted, and a limit. The HTML is read by Python's HTML parser: only the table's own tags and
attributes may be in it, and the cells, their titles and the headings must be the records'
values, once unescaped. The ASCII table is cut up by the positions in its top border: a
rectangle (for single line values) with every column and row where it should be. The set is
read after and must be unchanged. Non-trivial when some text held markup; distinct by records
and limit.
"""

import html.parser

from vf import gen
from vf.codec import typed

ASSUMPTIONS = [
    "headings aren't empty, and the limit isn't negative",
    "nested values are judged by their leaves being in their cell",
    "widths are in characters; ASCII tables of values with line breaks are only judged not to fail",
]

HOSTILE = ["<script>alert(1)</script>", "'><img src=x onerror=alert(1)>", '" onmouseover="x', "</td></tr></table>", "&lt;b&gt;", "&amp;", "&", "<", ">", "'", '"', "<!--", "-->", "]]>", "<td title='x'>", "a'b\"c<d>e&f",
           "javascript:alert(1)", "&#39;", "&#x3c;script&#x3e;", "</style><style>", "$x$", "&notin;", "&copy", "<td>", "<?php", "\\'", "%27", "&quot;&amp;quot;"]
PLAIN = ["abc", "", "x" * 60, "日本語", "é", "│", "─┬┐", "a b", "None", "0", "two  spaces"]
HEADINGS = ["id", "name", "<b>", "a'b", 'x" y="', "&amp;", "with space", "ключ", "│", "</th>", "long heading " * 4]


def value(rng, deep=True):
    k = rng.random()
    if k < 0.4:
        return rng.choice(HOSTILE)
    if k < 0.5:
        return rng.choice(PLAIN)
    if k < 0.6:
        return gen.anything(rng, unprintable=False)
    if k < 0.75 or not deep:
        return rng.choice([0, -1, 12345678901, 1.5, True, False, None, -0.0])
    if k < 0.85:
        return [value(rng, False) for _ in range(rng.randint(0, 3))]
    return {rng.choice(HEADINGS): value(rng, False) for _ in range(rng.randint(0, 2))}


def leaves(v):
    if isinstance(v, dict):
        for k, x in v.items():
            yield str(k)
            yield from leaves(x)
    elif isinstance(v, list):
        for x in v:
            yield from leaves(x)
    else:
        yield str(v)


class Table(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tags, self.attributes = set(), set()
        self.headings, self.rows, self.odd = [], [], []
        self.into = None

    def handle_starttag(self, tag, attrs):
        self.tags.add(tag)
        self.attributes |= {a for a, _ in attrs}
        self.into = None
        if tag == "tr" and self.headings:
            self.rows.append([])
        elif tag == "th":
            self.headings.append("")
            self.into = "th"
        elif tag == "td":
            attrs = dict(attrs)
            if "title" in attrs:
                if not self.rows:
                    self.rows.append([])
                self.rows[-1].append([attrs["title"], ""])
                self.into = "td"

    def handle_endtag(self, tag):
        self.tags.add(tag)
        if tag in ("td", "th"):
            self.into = None

    def handle_data(self, data):
        if self.into == "th":
            self.headings[-1] += data
        elif self.into == "td":
            self.rows[-1][-1][1] += data

    def handle_comment(self, data):
        self.odd.append(data)

    handle_decl = handle_pi = unknown_decl = handle_comment


def fits(v, text):
    if isinstance(v, (list, dict)):
        return all(x in text or repr(x)[1:-1] in text for x in leaves(v))
    return text == str(v)


def judge_html(ctx, records, shown, page, detail):
    table = Table()
    table.feed(page)
    table.close()
    detail = dict(html=page[:900], **detail)
    good = ctx.check(table.tags <= {"table", "thead", "tr", "th", "tbody", "td", "p"}, "a value added markup", tags=sorted(table.tags), **detail)
    good &= ctx.check(table.attributes <= {"class", "title", "style"}, "a value added an attribute", attributes=sorted(table.attributes), **detail)
    good &= ctx.check(not table.odd, "a value added a comment or declaration", found=table.odd, **detail)
    if good and not shown:
        ctx.check(not [r for r in table.rows if r], "a table of no rows has rows", rows=len(table.rows), **detail)
    if not good or not any(shown):
        return
    columns = [k for r in shown for k in r]
    headings = [h.strip("\n") for h in table.headings if h.strip("\n")]
    good = ctx.check(sorted(headings) == sorted(set(columns)), "the headings aren't the columns", headings=headings, columns=sorted(set(columns)), **detail)
    rows = [r for r in table.rows if r]
    good &= ctx.check(len(rows) == len(shown), "the table has the wrong number of rows", expected=len(shown), got=len(rows), **detail)
    if not good:
        return
    for at, (record, row) in enumerate(zip(shown, rows)):
        if not ctx.check(len(row) == len(headings), "a row has the wrong number of cells", row=at, expected=len(headings), got=len(row), **detail):
            return
        for heading, (title, text) in zip(headings, row):
            v = record.get(heading, "")
            if not ctx.check(fits(v, text) and fits(v, title), "a cell doesn't show its value", row=at, column=heading, value=repr(v), text=text, title=title, **detail):
                return
            ctx.count("html cells")


def judge_ascii(ctx, records, shown, text, detail):
    detail = dict(table=text[:1500], **detail)
    lines = text.split("\n")
    if not shown:
        ctx.check(len(lines) <= 4, "a table of no rows has rows", **detail)
    if not shown or not any(shown):
        return
    width = len(lines[0])
    if not ctx.check(all(len(x) == width for x in lines), "the table isn't a rectangle", widths=sorted({len(x) for x in lines}), **detail):
        return
    if not ctx.check(len(lines) == len(shown) + 4, "the table has the wrong number of rows", expected=len(shown), got=len(lines) - 4, **detail):
        return
    edges = [i for i, c in enumerate(lines[0]) if c in "┌┬┐"]
    cut = lambda line: [line[a + 1:b].strip() for a, b in zip(edges, edges[1:])]  # noqa
    for i, line in enumerate(lines[:3] + lines[3:]):
        if i not in (0, 2, len(lines) - 1) and not ctx.check(all(line[e] == "│" for e in edges), "a value is in another column", line=line, **detail):
            return
    headings = cut(lines[1])
    columns = []
    for r in shown:
        columns += [k for k in r if k not in columns]
    if not ctx.check(sorted(headings) == sorted(c.strip() for c in columns), "the headings aren't the columns", headings=headings, **detail):
        return
    by_name = {c.strip(): c for c in columns}
    for at, (record, line) in enumerate(zip(shown, lines[3:-1])):
        for heading, cell in zip(headings, cut(line)):
            v = record.get(by_name[heading], "")
            good = fits(v, cell) if isinstance(v, (list, dict)) else cell == str(v).strip()
            if not ctx.check(good, "a cell doesn't show its value", row=at, column=heading, value=repr(v), cell=cell, **detail):
                return
            ctx.count("ascii cells")


def one(ctx, case):
    from mabel import DictSet
    from mabel.data.internals.dictset import STORAGE_CLASS
    from mabel.data.internals.display import ascii_table, html_table

    rng = ctx.rng
    size = rng.choice([0, 1, 2, 4, 5, 6, 12] * 5 + [70])
    names = rng.sample(HEADINGS, rng.randint(1, 5))
    records = [{k: value(rng) for k in rng.sample(names, rng.randint(0 if rng.random() < 0.1 else 1, len(names)))} for _ in range(size)]
    if size and rng.random() < 0.2:
        records[rng.randrange(size)]["late"] = "only here"
    limit = rng.choice([None, 0, 1, 2, 5, 5, 10, 100]) if size < 70 else rng.choice([60, 70, 100])
    how = rng.choice(["list", "generator", "MEMORY", "DISK", "COMPRESSED_MEMORY", "plain"])
    pristine = [typed(r) for r in records]
    shown = records[: 5 if limit is None else limit]
    detail = dict(limit=limit, held=how)
    given = [] if limit is None else [limit]

    def make():
        if how == "list":
            return DictSet(records)
        if how == "generator":
            return DictSet(r for r in records)
        return DictSet(iter(records), storage_class=STORAGE_CLASS[how])

    if how == "plain":
        ok, page = ctx.guard("html_table", html_table, rng.choice([list, iter, lambda rs: (r for r in rs)])(records), *given, detail=detail)
        ok2, text = ctx.guard("ascii_table", ascii_table, rng.choice([list, iter, lambda rs: (r for r in rs)])(records), *given, detail=detail)
    else:
        ds = make()
        ok, page = ctx.guard("to_html_table", ds.to_html_table, *given, detail=detail)
        if how == "generator":
            ds = make()
        ok2, text = ctx.guard("to_ascii_table", ds.to_ascii_table, *given, detail=detail)
        if how != "generator":
            ctx.check([typed(r) for r in ds] == pristine, "displaying a set changed it", **detail)
            if rng.random() < 0.3:
                ok3, shown_text = ctx.guard("repr", repr, ds, detail=detail)
                if ok3:
                    judge_ascii(ctx, records, records[:10], shown_text, dict(detail, through="repr"))
    if ok:
        judge_html(ctx, records, shown, page, detail)
    if ok2:
        judge_ascii(ctx, records, shown, text, detail)
    ctx.check([typed(r) for r in records] == pristine, "displaying a set changed its records", **detail)
    ctx.seen((pristine, limit, how), nontrivial=any("<" in str(r) for r in shown), sample=dict(records=str(records[:2])[:300], **detail))


def run(ctx):
    ctx.minimum = ctx.n(300, 4000)
    ctx.deadline(8, 120)
    for case in range(ctx.n(2500, 100000)):
        if not ctx.more():
            break
        one(ctx, case)
    ctx.require("html cells", 2000)
    ctx.require("ascii cells", 2000)
