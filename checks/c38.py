"""
One case is a list of numbers (any size, range, sign and number of equal values; a list, tuple,
generator or column of a DictSet) put in any number of bins - the oracle sorts the values and
asks that cutting them at the bins' counts is a cut by value, that all are counted, and that the
drawing has a character for each bin, taller for larger bins; or a generated program, of frames
in files of all sorts (long names, form feeds, unicode, text without a file) and exceptions
raised from, during or instead of others, some of which (and some local variables) can't be
printed, compared or measured, some of which cause each other - while it's being handled the
error stack is compared with an own walk over the tracebacks: every frame of each exception and
its causes, in order, with file, line and function, and the code around the failing line; what `from None` suppressed isn't named. Non-trivial
with two bins and two values, or two frames; distinct by the values and bins, or the program.
"""

import decimal
import fractions
import itertools
import os
import re
import sys
import threading

from checks.c16 import Many, steps

ASSUMPTIONS = [
    "values of a histogram are numbers of one kind, and their range is below 1e308; there is one bin or more",
    "the error stack is compared without spaces and line breaks, it wraps its lines",
    "causes which were never raised have no frames",
    "code is shown for files which can be read as UTF-8",
]


# --- histograms


def numbers(rng):
    size = rng.choice([0, 1, 1, 2, 3, 10, 50, 50, 200, 1000])
    kind = rng.choice(["small", "wide", "unit", "equal", "huge", "tiny", "two", "negative", "skewed", "decimal", "fraction", "huge equal", "bool", "mixed", "close"])
    base = rng.choice([1e300, -1e300, 2**53, 1e16, -1e17, 3, 0.1, 2.0**900])
    make = {
        "small": lambda: rng.randint(-5, 5),
        "wide": lambda: rng.randint(-(2**62), 2**62),
        "unit": lambda: rng.random(),
        "equal": lambda: 7,
        "huge": lambda: rng.choice([1, -1]) * rng.uniform(0, 4e307),
        "tiny": lambda: rng.choice([5e-324, 0.0, 1e-300, 2.5e-310]),
        "two": lambda: rng.choice([-1e9, 1e9]),
        "negative": lambda: -rng.expovariate(0.01),
        "skewed": lambda: rng.paretovariate(0.5),
        "decimal": lambda: decimal.Decimal(rng.randint(-10000, 10000)) / 8,
        "fraction": lambda: fractions.Fraction(rng.randint(-100, 100), rng.randint(1, 9)),
        "huge equal": lambda: base,
        "bool": lambda: rng.random() < 0.5,
        "mixed": lambda: rng.choice([1, 1.0, True, 2, 0.5]),
        "close": lambda: base * (1 + rng.randint(0, 3) * sys.float_info.epsilon),
    }[kind]
    return kind, [make() for _ in range(size)]


def in_order(values, bins):
    """can the sorted values be cut into these counts without parting equal values"""
    values = sorted(values)
    if sum(bins) != len(values):
        return False
    at = 0
    for count in bins:
        at += count
        if count and at < len(values) and values[at - 1] == values[at]:
            return False
    return True


def histogram(ctx, case):
    from mabel import DictSet
    from mabel.data.internals.histogram import Histogram

    rng = ctx.rng
    kind, values = numbers(rng)
    count = rng.choice([1, 1, 2, 2, 3, 10, 10, 37, 200])
    how = rng.choice(["list", "list", "tuple", "generator", "DictSet", "DictSet of a generator"])
    detail = dict(kind=kind, size=len(values), values=str(values[:8])[:300], bins=count, how=how)

    def make():
        if how == "list":
            given = list(values)
        elif how == "tuple":
            given = tuple(values)
        elif how == "generator":
            given = (v for v in values)
        elif how == "DictSet":
            given = DictSet([{"k": v, "other": -1} for v in values])
        else:
            given = DictSet({"k": v} for v in values)
        return Histogram(given, key="k") if count == 10 else Histogram(given, key="k", number_of_bins=count)

    ok, made = ctx.guard("Histogram", make, detail=detail)
    if not ok:
        return
    bins = made.bins
    ctx.check(len(bins) == count, "there's another number of bins", got=len(bins), **detail)
    ctx.check(sum(bins) == len(values), "the bins don't hold every value once", got=sum(bins), **detail)
    ctx.check(in_order(values, bins), "the bins aren't in order of value", got=str(bins)[:300], **detail)
    ok, drawn = ctx.guard("repr of a histogram", repr, made, detail=dict(detail, bins=str(bins)[:300]))
    if ok:
        bars = drawn[1:-1]
        heights = " ▁▂▃▄▅▆▇█"
        fine = drawn[:1] == ">" and drawn[-1:] == "<" and len(bars) == count and all(b in heights for b in bars)
        if ctx.check(fine, "the drawing doesn't have a bar for each bin", got=drawn, **detail):
            pairs = sorted(zip(bins, map(heights.index, bars)))
            ctx.check(all(a[1] <= b[1] for a, b in zip(pairs, pairs[1:])), "a larger bin has a lower bar", got=drawn, bins=str(bins)[:300], **{k: v for k, v in detail.items() if k != "bins"})
            ctx.check(all((b != " ") or n * 8 < max(bins) or not n for n, b in zip(bins, bars)), "a bin isn't drawn", got=drawn, **detail)
    ctx.count("values binned", len(values))
    ctx.count("histograms of " + kind)
    ctx.seen(("histogram", repr(values), count, how), nontrivial=count > 1 and len(set(values)) > 1)


# --- error stacks

HOSTILE = '''
class Silent(Exception):
    def __str__(self):
        raise RuntimeError("can't be printed")
    __repr__ = __str__

class Empty(Exception):
    def __len__(self):
        return 0

class False_(Exception):
    def __bool__(self):
        return False

class Unsure(Exception):
    def __bool__(self):
        raise ValueError("neither")

class Unequal(Exception):
    def __eq__(self, other):
        raise ValueError("can't compare")
    __hash__ = None

class Odd(Exception):
    def __str__(self):
        return 5

class Leave(BaseException):
    pass

class NoText:
    def __repr__(self):
        raise RuntimeError("no text")

class NoFormat:
    def __format__(self, spec):
        raise KeyError("no format")

class NotText:
    def __str__(self):
        return None

class Loud:
    def __str__(self):
        return "two\\nlines\\n\\x0c\\u2028\\r\\n" + "long " * 60
'''
ERRORS = ["ValueError('bad value')", "KeyError('k')", "RuntimeError()", "Silent('x')", "Empty()", "False_()", "Unsure()", "Unequal()", "Odd()", "Leave('x')", "ValueError('two\\nlines')", "OSError(2, 'missing')", "StopIteration(1)", "AssertionError", "ValueError", "ExceptionGroup('many', [ValueError('one')])"]
LOCALS = ["1", "'text'", "NoText()", "NoFormat()", "NotText()", "Loud()", "[NoText()]", "{'a': NoFormat()}", "'x' * 500", "None", "lambda: 1", "Silent('x')", "b'\\xff'", "'\\x00\\x1b[0m'", "[]", "NoText", "'{}%s'"]
NAMES = ["go", "función", "step", "_hidden", "run_it", "x" * 70, "ключ", "CamelCase"]
FILES = ["plain.py", "with space.py", "a-b-c.py", "п.py", "n" * 120 + ".py", "deep/er/file.py", "<string>", "no.such.file.py", "crlf.py", "feeds.py", "latin.py"]


def program(rng):
    """source, how the exceptions are chained"""
    chain = rng.choice([1, 1, 2, 2, 3, 6])
    lines = []
    links = []
    number = itertools.count()

    def pad():
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            lines.append(rng.choice(["", "# note", "# \x0c feed", "# \u2028 separator", "\x0c", "# ключ", "# \x85 next", "#" + " x" * 90]))

    def some_locals(indent):
        for _ in range(rng.choice([0, 0, 1, 2])):
            lines.append(f"{indent}v{next(number)} = {rng.choice(LOCALS)}")

    def raising(expression, link, indent):
        error = rng.choice(ERRORS)
        if link in ("start", "during") and rng.random() < 0.15:
            # a frame with nothing of its own in it
            lines.append(f"{indent}exec({rng.choice(['1 / 0', 'raise KeyError(1)', 'int(None)'])!r}, {{}})")
            links.append("bare frame")
            return
        if link == "from":
            lines.append(f"{indent}raise {error} from caught")
        elif link == "from none":
            lines.append(f"{indent}raise {error} from None")
        elif link == "from itself":
            lines.append(f"{indent}e = ValueError('myself')")
            lines.append(f"{indent}raise e from e")
        elif link == "each other":
            lines.append(f"{indent}e = {error}")
            lines.append(f"{indent}e = e() if isinstance(e, type) else e")
            lines.append(f"{indent}caught.__cause__ = e")
            lines.append(f"{indent}raise e from caught")
        elif link == "context loop":
            lines.append(f"{indent}e = KeyError('loop')")
            lines.append(f"{indent}try:")
            lines.append(f"{indent}    raise e")
            lines.append(f"{indent}finally:")
            lines.append(f"{indent}    caught.__context__ = e")
        elif link == "again":
            lines.append(f"{indent}raise")
        elif link == "never raised":
            lines.append(f"{indent}raise {error} from LookupError('never raised')")
        else:
            lines.append(f"{indent}raise {error}")

    names = []
    for level in range(chain):
        link = "start" if level == 0 else rng.choice(["from", "from", "during", "during", "from none", "from itself", "each other", "context loop", "again", "never raised"])
        links.append(link)
        pad()
        name = f"{rng.choice(NAMES)}_{next(number)}"
        lines.append(f"def {name}():")
        some_locals("    ")
        if level == 0:
            raising(None, link, "    ")
        else:
            lines.append("    try:")
            lines.append(f"        {names[-1]}()")
            lines.append("    except BaseException as caught:")
            some_locals("        ")
            raising(None, link, "        ")
        names.append(name)
        # some frames in between
        for _ in range(rng.choice([0, 1, 1, 3])):
            pad()
            name = f"{rng.choice(NAMES)}_{next(number)}"
            kind = rng.choice(["call", "call", "generator", "lambda", "comprehension", "method", "long call"])
            inner = f"{names[-1]}()"
            if kind == "lambda":
                lines.append(f"{name} = lambda: {inner}")
            elif kind == "method":
                lines.append(f"class K_{name}:")
                lines.append("    def act(self):")
                lines.append(f"        return {inner}")
                lines.append(f"{name} = K_{name}().act")
            elif kind == "generator":
                lines.append(f"def gen_{name}():")
                lines.append(f"    yield {inner}")
                lines.append(f"def {name}():")
                lines.append(f"    return list(gen_{name}())")
            else:
                lines.append(f"def {name}():")
                some_locals("    ")
                if kind == "comprehension":
                    lines.append(f"    return sum({inner} for _ in range(3))")
                elif kind == "long call":
                    lines.append(f"    return ({' + '.join(['0'] * 80)}) + {inner}")
                else:
                    lines.append(f"    return {inner}")
            names[-1] = name
    lines.append(f"start = {names[-1]}")
    return lines, links


def expected_frames(error):
    """(file, line, function) of each exception: the one handled, then its causes"""
    out, seen = [], []
    while error is not None and error.__traceback__ is not None and not any(error is e for e in seen):
        seen.append(error)
        frames = []
        tb = error.__traceback__
        while tb is not None:
            code = tb.tb_frame.f_code
            frames.append((code.co_filename, tb.tb_lineno, code.co_name))
            tb = tb.tb_next
        out.append(frames)
        if error.__cause__ is not None:
            following = error.__cause__
            if following.__traceback__ is None and not error.__suppress_context__:
                following = error.__context__
        elif error.__suppress_context__:
            following = None
        else:
            following = error.__context__
        error = following
    return out


def suppressed_frames(error):
    """frames of the exceptions which "from None" cut off, and their contexts"""
    out, seen = [], []
    while error is not None and not any(error is e for e in seen):
        seen.append(error)
        cut = error.__suppress_context__ and error.__cause__ is None
        error = error.__context__ if cut or error.__cause__ is None else error.__cause__
        if cut:
            while error is not None and not any(error is e for e in seen):
                seen.append(error)
                tb = error.__traceback__
                while tb is not None:
                    out.append((tb.tb_frame.f_code.co_filename, tb.tb_lineno, tb.tb_frame.f_code.co_name))
                    tb = tb.tb_next
                error = error.__context__
    return out


def bare(text):
    return "".join(text.split())


def stack(ctx, case):
    from mabel.errors import render_error_stack

    rng = ctx.rng
    lines, links = program(rng)
    name = rng.choice(FILES)
    path = name if name.startswith("<") else os.path.join(ctx.scratch, "programs", name)
    source = "\n".join(lines) + "\n"
    readable = True
    if name == "latin.py":
        source = "# -*- coding: latin-1 -*- \xe9\n" + "".join(c if ord(c) < 256 and c != "\x85" else "j" for c in source)
        lines = source.split("\n")
        readable = False
    if name.startswith("<") or name == "no.such.file.py":
        readable = False
    else:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(source.encode("latin-1" if name == "latin.py" else "utf8") if name != "crlf.py" else source.replace("\n", "\r\n").encode("utf8"))
    space = {}
    exec(compile(HOSTILE, "<hostile>", "exec"), space)
    exec(compile(source, path, "exec"), space)
    cyclic = any(link in ("from itself", "each other", "context loop") for link in links)
    detail = dict(links=links, file=name[:40], source="\n".join(lines)[-1500:])
    result = {}

    def handle():
        try:
            space["start"]()
        except BaseException as error:
            result["frames"] = expected_frames(error)
            result["suppressed"] = suppressed_frames(error)
            try:
                result["text"] = steps(render_error_stack, 2000000) if cyclic else render_error_stack()
            except Many:
                result["endless"] = True
            except BaseException as err:
                result["raised"] = f"{type(err).__name__}: {err}"
        result["after"] = render_error_stack()

    if rng.random() < 0.3:
        thread = threading.Thread(target=handle)
        thread.start()
        thread.join()
    else:
        handle()
    if "frames" not in result:
        raise RuntimeError("the program didn't fail")
    ctx.check("endless" not in result, "the error stack doesn't end", **detail)
    ctx.check("raised" not in result, "the error stack raised: " + result.get("raised", ""), **detail)
    if "text" not in result:
        return
    ctx.check(result["after"] == "", "there's an error stack when nothing is being handled", got=result["after"][:300], **detail)
    text = bare(result["text"])
    raw = set(result["text"].split("\n"))
    at = 0
    ours = 0
    for index, frames in enumerate(result["frames"]):
        for filename, line, function in frames:
            wanted = bare(f"{os.path.abspath(filename)}:{line} in {function}()")
            found = text.find(wanted, at)
            if not ctx.check(found >= 0, "a frame isn't in the error stack, or out of order", frame=wanted, of=f"exception {index} of {len(result['frames'])}", frames=str(result["frames"])[:800], **detail):
                return
            at = found + len(wanted)
            if filename == path and readable:
                around = range(max(line - 3, 1), min(line + 3, len(lines)) + 1)
                shown = "".join(bare(f"{'>' if n == line else ' '}{n:4d} | {lines[n - 1]}") for n in around)
                found = text.find(shown, at)
                if not ctx.check(found >= 0, "the line of code which failed and those around it aren't shown", line=lines[line - 1], number=line, **detail):
                    return
                at = found + len(shown)
                code = lines[line - 1]
                if len(code) < 100 and code.isascii() and code.isprintable():
                    ctx.check(f">{line:4d} | {code.rstrip()}" in raw, "the line of code which failed isn't shown as it's written", line=code, **detail)
                    ctx.count("short lines of code")
                ctx.count("lines of code")
            ours += filename == path
    ctx.count("frames", ours)
    ctx.count("exceptions", len(result["frames"]))
    for link in links[1:]:
        ctx.count("raised " + link)
    # what was suppressed (from None) isn't to do with the error
    told = {bare(f"{os.path.abspath(f)}:{n} in {c}()") for frames in result["frames"] for f, n, c in frames}
    for f, n, c in result["suppressed"]:
        hidden = bare(f"{os.path.abspath(f)}:{n} in {c}()")
        if f == path and hidden not in told:
            ctx.check(hidden not in text, "a frame of a suppressed exception is in the error stack", frame=hidden, **detail)
            ctx.count("suppressed frames")
    ctx.seen(("stack", source, name), nontrivial=ours > 1)


def edges(ctx):
    from mabel.errors import render_error_stack

    ctx.check(render_error_stack() == "", "there's an error stack without an error")

    def deep(n):
        return deep(n - 1) if n else 1 / 0

    for depth in (1, 50, 300):
        try:
            deep(depth)
        except ZeroDivisionError:
            # (our own variables are in it too)
            ok, text = ctx.guard("render_error_stack", render_error_stack, detail=dict(depth=depth))
            if ok:
                named = len(re.findall(r"c38\.py:\d+ in deep\(\)", text))
                ctx.check(named == depth + 1, "repeated frames aren't all named", got=named, expected=depth + 1)
                ctx.count("deep stacks")
            text = None


def run(ctx):
    ctx.minimum = ctx.n(300, 6000)
    ctx.deadline(14, 200)
    edges(ctx)
    for case in range(ctx.n(4000, 100000)):
        if not ctx.more():
            break
        (stack if case % 4 == 3 else histogram)(ctx, case)
    ctx.require("values binned", 5000)
    ctx.require("frames", 100)
    ctx.require("lines of code", 60)
    ctx.require("short lines of code", 30)
    ctx.require("suppressed frames", 3)
    ctx.require("raised bare frame", 3)
    for link in ("from", "during", "from none", "from itself", "each other", "context loop", "again", "never raised"):
        ctx.require("raised " + link, 2)
    ctx.require("deep stacks", 3)
