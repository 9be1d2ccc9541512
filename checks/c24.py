"""
One case is one of: a path (any number of parts, dots and odd characters in any of them, with
or without a file name or a last slash), whose parts must put it back together; a template with
placeholders anywhere, more than once, and other braces, filled in for a date, a datetime or
(under a frozen clock) today, against a reference which scans the template; two dates which
differ in a part of the template, which must have different paths; a file, directory or nothing
to remove, with failures injected into os.remove. Non-trivial always; distinct by the path or
template and date.
"""

import datetime
import errno
import os
import pathlib
import re

from vf import gen
from vf.clock import frozen

ASSUMPTIONS = [
    "paths are equal when they have the same parts: doubled slashes and single dots don't count",
    "paths to split have two parts or more (a lone part is a bucket, whose path is 'partitions/')",
    "a last part with a dot in it is the name of a file",
    "failures to remove a file are injected, the process is root",
]

WORDS = ["bucket", "a", "data set", "x.y", "v1.2.3", "year_{yyyy}", "ключ", "a-b", "by_x", "x=1", "(1)", "{yyyy}-{mm}-{dd}", "..", "100%", "a\\b", "~", "{", "UPPER", "tar.gz", "…"]
PLAIN = [w for w in WORDS if "." not in w]
NAMES = ["file.txt", "a.b.c", "x.tar.gz", ".hidden.txt", "name .ext", "日本.jsonl", "1.0", "a{dd}.x", "..a.b", "file.2021", "v1.2", "part.0", "x.12y"]


def part(rng):
    if rng.random() < 0.7:
        return rng.choice(WORDS)
    text = gen.anything(rng, 10, unprintable=False).replace("/", "")
    return text if text.strip(".") else "x"


def splits(ctx, case):
    from mabel.utils.paths import get_parts

    rng = ctx.rng
    parts = [part(rng) for _ in range(rng.randint(1, 6))]
    named = rng.random() < 0.5
    parts.append(rng.choice(NAMES) if named else rng.choice(PLAIN + [".hidden"]))
    text = rng.choice(["", "", "", "/"]) + "/".join(parts)
    if rng.random() < 0.1:
        text = text[:1] + text[1:].replace("/", "//", 1)
    slash = not named and rng.random() < 0.5
    text += "/" if slash else ""
    given = pathlib.PurePosixPath(text) if rng.random() < 0.1 else text
    ok, got = ctx.guard("get_parts", get_parts, given, detail=dict(path=text))
    if not ok:
        return
    detail = dict(path=text, got=repr(got))
    bucket, path, stem, suffix = got
    ctx.check(bucket == pathlib.PurePosixPath(text).parts[0], "the bucket isn't the first part", **detail)
    ctx.check(path.endswith("/") and not path.endswith("//"), "the path doesn't end with a slash", **detail)
    again = pathlib.PurePosixPath(bucket) / path / ((stem or "") + (suffix or ""))
    ctx.check(again == pathlib.PurePosixPath(text), "the parts don't put the path back together", again=str(again), **detail)
    if named:
        ctx.check(stem is not None and suffix is not None and suffix.startswith(".") and suffix.count(".") == 1, "a file name isn't split at its last dot", **detail)
    else:
        ctx.check(stem is None and suffix is None, "a folder has a file name", **detail)
    ctx.count("paths with a file" if named else "paths without a file")
    ctx.seen(("split", text))


PLACEHOLDERS = ["{yyyy}", "{mm}", "{dd}", "{HH}", "{MM}", "{SS}"]
RESOLUTION = {"{yyyy}": "year", "{mm}": "month", "{dd}": "day", "{HH}": "hour", "{MM}": "minute", "{SS}": "second"}


def reference(template, at):
    values = {"{yyyy}": "%04d" % at.year, "{mm}": "%02d" % at.month, "{dd}": "%02d" % at.day, "{HH}": "%02d" % at.hour, "{MM}": "%02d" % at.minute, "{SS}": "%02d" % at.second}
    return re.sub(r"\{(yyyy|mm|dd|HH|MM|SS)\}", lambda m: values[m.group(0)], template)


def make_template(rng):
    pieces = []
    for _ in range(rng.randint(1, 8)):
        pieces.append(rng.choice(PLACEHOLDERS) if rng.random() < 0.6 else rng.choice(["/", "year_", "-", "{YYYY}", "{id}", "{y}", "{", "}", "{{mm}}", "as at ", "{hh}", "by_x/", "x", "{ dd }", "yyyy", "ключ", "%Y", "$1", "\\1", "{ss}"]))
    return "".join(pieces)


def moment(rng):
    return datetime.datetime(rng.choice([1, 99, 476, 999, 1000, 1999, 2000, 2020, 2021, 9999]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 999999]))


def templates(ctx, case):
    from mabel.utils.paths import build_path, date_format

    rng = ctx.rng
    template = make_template(rng)
    at = moment(rng)
    given = rng.choice([at, at, at.date(), at.replace(tzinfo=datetime.timezone.utc)])
    told = given if isinstance(given, datetime.datetime) else datetime.datetime(at.year, at.month, at.day)
    detail = dict(template=template, date=repr(given))
    ok, got = ctx.guard("date_format", date_format, template, given, detail=detail)
    if ok:
        ctx.check(got == reference(template, told), "a template was filled in wrongly", got=got, expected=reference(template, told), **detail)
    folder = rng.choice(["bucket/", "a/b/", "x.y/z/"]) + template.replace("//", "/").strip("/") + "/"
    ok, got = ctx.guard("build_path", build_path, folder, given, detail=dict(detail, template=folder))
    if ok:
        ctx.check(got == reference(folder, told), "a path was built wrongly", got=got, expected=reference(folder, told), **dict(detail, template=folder))
    if "." not in folder.split("/")[-2]:
        ok, got = ctx.guard("build_path", build_path, folder[:-1], given, detail=dict(detail, template=folder[:-1]))
        if ok:
            ctx.check(got.endswith("/") and pathlib.PurePosixPath(got) == pathlib.PurePosixPath(reference(folder, told)), "a path without its slash was built wrongly", got=got, expected=reference(folder, told), **dict(detail, template=folder[:-1]))
    stems = [build_path("bucket/{stem}/x/", given) for _ in range(2)]
    ctx.check(stems[0] != stems[1] and all(re.fullmatch("bucket/[^/{}]{32}/x/", s) for s in stems), "stems aren't random names", got=stems)
    if case % 5 == 0:
        now = datetime.datetime(rng.randint(1971, 2100), 12, 31, 23, 59, 58)

        def today():
            with frozen(now):
                return date_format(template)

        ok, got = ctx.guard("date_format", today, detail=detail)
        if ok:
            ctx.check(got == reference(template, now), "a template wasn't filled in for today", got=got, expected=reference(template, now), now=str(now), **detail)
            ctx.count("today")

    # dates which differ in what the template shows have different paths
    shown = sorted(set(re.findall(r"\{(?:yyyy|mm|dd|HH|MM|SS)\}", template)))
    if shown:
        part = RESOLUTION[rng.choice(shown)]
        other = at.replace(**{part: getattr(moment(rng), part)})
        if getattr(other, part) != getattr(at, part):
            ok, pair = ctx.guard("date_format", lambda: (date_format(template, at), date_format(template, other)), detail=detail)
            if ok:
                ctx.check(pair[0] != pair[1], "different dates have the same path", part=part, other=repr(other), got=pair, **detail)
                ctx.count("pairs of dates")
    ctx.count("templates")
    ctx.seen(("template", template, repr(given)))


def removing(ctx, case):
    from mabel.utils.paths import silent_remove

    rng = ctx.rng
    home = os.path.join(ctx.scratch, f"rm{case}")
    os.makedirs(home)
    keep = os.path.join(home, "keep.txt")
    open(keep, "w").close()
    name = os.path.join(home, rng.choice(["a.txt", "with space", "é", "x.y.z"]))
    how = rng.choice(["file", "missing", "directory", "below a file", "fault", "twice", "dangling"])
    detail = dict(how=how)
    try:
        if how in ("file", "twice", "fault"):
            open(name, "w").close()
        elif how == "directory":
            os.makedirs(name)
        elif how == "dangling":
            os.symlink(os.path.join(home, "nowhere"), name)
        elif how == "below a file":
            name = os.path.join(keep, "x")
        if how in ("file", "missing", "twice", "dangling"):
            for _ in range(2 if how == "twice" else 1):
                ctx.guard("silent_remove", silent_remove, name, detail=detail)
            ctx.check(not os.path.lexists(name), "the file is still there", **detail)
        elif how == "fault":
            code = rng.choice([errno.EACCES, errno.EPERM, errno.EBUSY, errno.EIO, errno.EROFS, errno.ENOTDIR])
            real = os.remove

            def failing(path, *args, **kwargs):
                if str(path) == name:
                    raise OSError(code, os.strerror(code), path)
                return real(path, *args, **kwargs)

            os.remove = os.unlink = failing
            try:
                silent_remove(name)
                ctx.violation("a failure to remove a file was hidden", error=errno.errorcode[code], **detail)
            except OSError as err:
                ctx.check(err.errno == code, "another failure was reported", got=repr(err), expected=errno.errorcode[code], **detail)
            finally:
                os.remove = real
                os.unlink = UNLINK
        else:
            try:
                silent_remove(name)
                ctx.violation("a failure to remove a file was hidden", **detail)
            except OSError:
                pass
            ctx.check(how != "directory" or os.path.isdir(name), "a directory was removed", **detail)
        ctx.check(os.path.exists(keep), "another file was removed", **detail)
    finally:
        os.remove, os.unlink = REMOVE, UNLINK
        for path in (name, keep):
            if os.path.isdir(path):
                os.rmdir(path)
            elif os.path.lexists(path):
                os.unlink(path)
        os.rmdir(home)
    ctx.count("removed " + how)
    ctx.seen(("remove", how, case))


REMOVE, UNLINK = os.remove, os.unlink


def refusals(ctx):
    from mabel.utils.paths import build_path, get_parts

    for func in (build_path, get_parts):
        for bad in ("", None):
            try:
                func(bad)
                ctx.violation("an empty path was accepted", function=func.__name__, path=repr(bad))
            except ValueError:
                ctx.count("empty refused")


def run(ctx):
    ctx.minimum = ctx.n(1500, 20000)
    ctx.deadline(8, 120)
    refusals(ctx)
    for case in range(ctx.n(5000, 200000)):
        if not ctx.more():
            break
        if case % 12 == 11:
            removing(ctx, case)
        else:
            (splits, templates)[case % 2](ctx, case)
    for name in ("paths with a file", "paths without a file", "templates", "pairs of dates", "today", "empty refused"):
        ctx.require(name, 3 if name == "empty refused" else 50)
    for how in ("file", "missing", "directory", "below a file", "fault", "twice", "dangling"):
        ctx.require("removed " + how, 2)
