"""
One case is a session with a writer (plain, batch, stream; over disk or memory; finalised well,
with a failure, with storage failing, twice, several streams at once), with sets kept on disk
(derived, iterated to the end or part of the way, from an iterator which fails) or with a Reader
(serial or multiprocess, to the end, part of the way, over storage which fails). Threads, open
files, child processes and the temporary folder are compared with what there was before, an
audit hook watches every path opened for writing, made, moved or removed, and a snapshot of the
files tells what changed. Other cases are programs which are run to their exit (normal, by an
exception, by sys.exit) while all of that is in use. Non-trivial when there was something to
leave behind; distinct by the session.
"""

import gc
import json
import os
import shutil
import subprocess
import sys
import threading

from vf import gen
from vf.store import StorageFault, Store, adapters
from vf.stress import until

ASSUMPTIONS = [
    "a set is finished with when there's no reference to it or its iterators; a writer when finalize has returned or raised",
    "an exit is a normal one, an uncaught exception or sys.exit; killed processes can't clean up",
    "the interpreter's own files and processes were opened by a first use of each part before the counting starts",
    "what stops has about 20 seconds of a canary thread's ticks to do so",
]

WATCH = {"on": False, "paths": []}
WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
CHANGES = ("os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "shutil.rmtree", "shutil.move", "shutil.copyfile")


def audit(event, args):
    if not WATCH["on"]:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(flags, int) and flags & WRITES and isinstance(path, (str, bytes, os.PathLike)):
            WATCH["paths"].append(("open", os.fsdecode(path)))
    elif event in CHANGES:
        for path in args[:2]:
            if isinstance(path, (str, bytes, os.PathLike)):
                WATCH["paths"].append((event, os.fsdecode(path)))


def strays(allowed):
    """what was changed outside these folders"""
    out = []
    for event, path in WATCH["paths"]:
        real = os.path.realpath(path)
        if real.startswith(("/dev/", "/proc/")) or any(real == a or real.startswith(a + "/") for a in allowed):
            continue
        if event == "os.mkdir" and any(a.startswith(real + "/") for a in allowed):
            continue
        out.append((event, path))
    return out


def snapshot(folder):
    out = {}
    for base, _, names in os.walk(folder):
        for name in names:
            path = os.path.join(base, name)
            try:
                status = os.stat(path)
            except FileNotFoundError:
                continue
            out[os.path.relpath(path, folder)] = (status.st_size, status.st_mtime_ns)
    return out


def open_files():
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            out[fd] = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            pass
    return {f"{fd} {name}" for fd, name in out.items() if not name.startswith("/proc/")}


def workers():
    import psutil

    return {p.pid for p in psutil.Process().children(recursive=True) if p.status() != psutil.STATUS_ZOMBIE}


def threads():
    return {t.ident for t in threading.enumerate() if t.name != "vf-canary"}


class Settled:
    """nothing more is running or open than there was at the start"""

    def __init__(self, ctx, temp):
        self.ctx = ctx
        self.temp = temp
        gc.collect()
        self.before = (threads(), open_files(), workers(), set(os.listdir(temp)))

    def left(self):
        gc.collect()
        now = (threads(), open_files(), workers(), set(os.listdir(self.temp)))
        names = {t.ident: t.name for t in threading.enumerate()}
        found = {}
        for kind, was, is_ in zip(("threads", "open files", "processes", "temporary files"), self.before, now):
            more = is_ - was
            if more:
                found[kind] = sorted(str(names.get(m, m)) if kind == "threads" else str(m) for m in more)[:5]
        return found

    def judge(self, what, **detail):
        if self.left() and not until(lambda: not self.left(), ticks=2000):
            found = self.left()
            for kind in found:
                self.ctx.violation(f"{kind} remain after {what}", left=found[kind], **detail)
            return False
        return True


class Failing:
    def __init__(self, after):
        self.left = after

    def __call__(self, *args):
        self.left -= 1
        if self.left < 0:
            raise StorageFault("injected")


SCHEMA = [{"name": "_id", "type": "INTEGER"}, {"name": "k", "type": "VARCHAR"}]


def rows(rng, count):
    return [{"_id": i, "k": rng.choice(["a", "b", "c", "é", "d/e"])} for i in range(count)]


def writing(ctx, case):
    from mabel.adapters.disk import DiskWriter
    from mabel.data import BatchWriter, StreamWriter
    from mabel.data.writers.writer import Writer

    rng = ctx.rng
    kind = rng.choice(["plain", "batch", "stream", "stream", "streams"])
    disk = rng.random() < 0.5
    home = os.path.join(ctx.scratch, f"w{case}")
    os.mkdir(home)
    store = Store()
    inner = DiskWriter if disk else adapters(store)[0]
    fault = rng.choice(["none", "none", "none", "storage", "early", "has_failure"])
    form = rng.choice(["jsonl", "zstd", "parquet", "text", "flat"])
    how = rng.choice(["once", "once", "twice", "dropped"])
    records = rows(rng, rng.choice([0, 1, 5, 60]))
    dataset = home + "/data/set" if disk else "data/set"
    detail = dict(kind=kind, disk=disk, fault=fault, format=form, how=how, records=len(records))
    settled = Settled(ctx, os.environ["TMPDIR"])

    class Faulty(inner):
        failing = Failing(10**9)

        def commit(self, byte_data, override_blob_name=None):
            self.failing()
            return super().commit(byte_data, override_blob_name)

    WATCH["paths"].clear()
    WATCH["on"] = True
    try:
        made = []
        for i in range(3 if kind == "streams" else 1):
            kwargs = dict(dataset=f"{dataset}{i}", inner_writer=Faulty, format=form, schema=SCHEMA, date="2022-03-04", blob_size=rng.choice([200, 10**6]))
            if kind == "plain":
                made.append(Writer(**kwargs))
            elif kind == "batch":
                made.append(BatchWriter(**kwargs))
            else:
                kwargs["partitions"] = rng.choice([["year_{yyyy}/by_k/k={k}"], ["day_{dd}"]])
                made.append(StreamWriter(idle_timeout_seconds=rng.choice([0, 30]), writer_pool_capacity=rng.choice([1, 10]), **kwargs))
        if fault == "early":
            Faulty.failing = Failing(rng.randint(0, 3))
        for record in records:
            for writer in made:
                try:
                    writer.append(dict(record))
                except StorageFault:
                    ctx.count("faults while appending")
        if fault == "storage":
            Faulty.failing = Failing(rng.choice([0, 0, 1]))
        if kind.startswith("stream"):
            ctx.count("attendants", len(made))
        for writer in made:
            for _ in range(2 if how == "twice" else 1):
                try:
                    if fault == "has_failure":
                        writer.finalize(has_failure=True)
                    else:
                        writer.finalize()
                except StorageFault:
                    ctx.count("failed finalizes")
    finally:
        WATCH["on"] = False
    if how == "dropped":
        del writer, made[:]
    judged = settled.judge("finalize", **detail)
    outside = strays([home + "/data"] if disk else [])
    ctx.check(not outside, "something was written outside the dataset's folder", paths=str(outside[:5]), **detail)
    if disk:
        elsewhere = [name for name in snapshot(home) if not name.startswith("data/set")]
        ctx.check(not elsewhere, "files were made outside the dataset's folder", files=elsewhere[:5], **detail)
    Faulty.failing = Failing(10**9)
    shutil.rmtree(home)
    ctx.count("writers")
    ctx.seen(("write", sorted(detail.items())), nontrivial=judged and bool(records))


def keeping(ctx, case):
    from mabel import DictSet
    from mabel.data.internals.dictset import STORAGE_CLASS

    rng = ctx.rng
    temp = os.path.join(ctx.scratch, f"t{case}")
    os.mkdir(temp)
    before_temp = os.environ["TMPDIR"]
    settled = Settled(ctx, before_temp)
    size = rng.choice([0, 1, 10, 300])
    records = [gen.json_record(rng, i) for i in range(size)]
    steps = []
    alive = []

    def failing():
        yield from records
        raise StorageFault("injected")

    base = set(os.listdir(before_temp))
    WATCH["paths"].clear()
    WATCH["on"] = True
    try:
        for _ in range(rng.randint(1, 6)):
            step = rng.choice(["make", "make", "derive", "part", "whole", "items", "fail", "drop", "count", "read twice"])
            steps.append(step)
            if step == "make":
                alive.append(DictSet(iter(records), storage_class=STORAGE_CLASS.DISK))
            elif step == "fail":
                try:
                    DictSet(failing(), storage_class=STORAGE_CLASS.DISK)
                    ctx.violation("a set hid the failure of its source")
                except StorageFault:
                    ctx.count("failing sources")
            elif alive:
                one = rng.choice(alive)
                if step == "derive":
                    how = rng.choice(["select", "filter", "distinct"])
                    alive.append(one.select(["_id"]) if how == "select" else one.filter("_id >= 0") if how == "filter" else one.distinct())
                elif step == "part":
                    iterator = iter(one)
                    next(iterator, None)
                    if rng.random() < 0.5:
                        alive.append(iterator)
                        alive = [a for a in alive if a is not iterator]
                    del iterator
                    list(one.take(1))
                elif step == "whole":
                    list(one)
                elif step == "items":
                    list(one.get_items(*range(0, min(size, 5))))
                elif step == "drop":
                    alive.remove(one)
                elif step == "read twice":
                    list(one)
                    list(one)
                elif step == "count":
                    one.count()
                one = None
            gc.collect()
            files = set(os.listdir(before_temp)) - base
            ctx.check(len(files) <= len(alive), "there are more temporary files than sets", files=len(files), sets=len(alive), steps=steps)
    finally:
        WATCH["on"] = False
    ctx.count("sets on disk", steps.count("make") + steps.count("derive"))
    alive.clear()
    one = None
    settled.judge("the sets are gone", steps=steps, size=size)
    outside = strays([os.path.realpath(before_temp)])
    ctx.check(not outside, "a set wrote outside the temporary folder", paths=str(outside[:5]), steps=steps)
    os.rmdir(temp)
    ctx.seen(("sets", steps, size), nontrivial="make" in steps)


def reading(ctx, case):
    from mabel import Reader, SqlReader
    from mabel.adapters.disk import DiskReader
    from mabel.data.internals.dictset import STORAGE_CLASS

    rng = ctx.rng
    home = os.path.join(ctx.scratch, f"r{case}")
    folder = home + "/data/set/year_2022/month_03/day_04"
    os.makedirs(folder)
    blobs = rng.choice([1, 3, 6, 8])
    for b in range(blobs):
        with open(f"{folder}/{b}.jsonl", "w") as f:
            for i in range(rng.choice([1, 20, 200])):
                f.write(json.dumps({"_id": b * 1000 + i, "v": "x" * 20}) + "\n")
    if rng.random() < 0.2:
        with open(f"{folder}/broken.jsonl", "wb") as f:
            f.write(b'{"_id": 1}\n{"broken\n')
    multi = rng.random() < 0.3
    how = rng.choice(["whole", "part", "unread", "first", "take", "sql", "fault"])
    storage = rng.choice(list(STORAGE_CLASS)) if how not in ("unread",) else STORAGE_CLASS.NO_PERSISTANCE
    detail = dict(blobs=blobs, multiprocess=multi, how=how, storage=storage.name)

    class Faulty(DiskReader):
        def get_blob_bytes(self, blob):
            if how == "fault" and blob.endswith("/0.jsonl"):
                raise StorageFault("injected")
            return super().get_blob_bytes(blob)

    before = snapshot(home)
    here = os.getcwd()
    os.chdir(home)
    settled = Settled(ctx, os.environ["TMPDIR"])
    WATCH["paths"].clear()
    WATCH["on"] = True
    try:
        if how == "sql":
            source = SqlReader("SELECT * FROM data.set WHERE _id > 3", inner_reader=Faulty, start_date="2022-03-04", end_date="2022-03-04")
            list(source)
        else:
            source = Reader(dataset="data/set", inner_reader=Faulty, start_date="2022-03-04", end_date="2022-03-04", multiprocess=multi, persistence=storage)
            try:
                if how in ("whole", "fault"):
                    list(source)
                elif how == "part":
                    for i, _ in enumerate(source):
                        if i >= 2:
                            break
                elif how == "first":
                    source.first()
                elif how == "take":
                    list(source.take(3))
            except StorageFault:
                ctx.count("storage faults seen")
    finally:
        WATCH["on"] = False
    if multi and blobs > 4 and how not in ("unread", "sql"):
        ctx.count("multiprocess reads")
    source = None
    judged = settled.judge("the read", **detail)
    os.chdir(here)
    outside = strays([os.path.realpath(os.environ["TMPDIR"])] if storage == STORAGE_CLASS.DISK else [])
    ctx.check(not outside, "a Reader wrote", paths=str(outside[:5]), **detail)
    after = snapshot(home)
    ctx.check(after == before, "reading changed the files", before=len(before), after=str({k: v for k, v in after.items() if before.get(k) != v})[:500], **detail)
    shutil.rmtree(home)
    ctx.count("reads")
    ctx.seen(("read", sorted(detail.items())), nontrivial=judged)


PROGRAM = '''
import json, os, sys
sys.path.insert(0, {repo!r})
import logging; logging.disable(logging.CRITICAL)
from mabel import DictSet, Reader
from mabel.data import StreamWriter, BatchWriter
from mabel.data.internals.dictset import STORAGE_CLASS
from mabel.adapters.disk import DiskReader, DiskWriter

keep = []
records = [{{"_id": i, "k": "a"}} for i in range(200)]
for use in {uses!r}:
    if use == "set":
        keep.append(DictSet(iter(records), storage_class=STORAGE_CLASS.DISK))
    elif use == "reading set":
        ds = DictSet(iter(records), storage_class=STORAGE_CLASS.DISK)
        it = iter(ds)
        next(it)
        keep.append((ds, it))
    elif use == "cycle":
        ds = DictSet(iter(records), storage_class=STORAGE_CLASS.DISK)
        loop = [ds]
        loop.append(loop)
    elif use == "gone":
        list(DictSet(iter(records), storage_class=STORAGE_CLASS.DISK).select(["k"]))
    elif use == "stream":
        w = StreamWriter(dataset="out/stream", inner_writer=DiskWriter, format="jsonl", schema=False)
        w.append(dict(records[0]))
        w.finalize()
        keep.append(w)
    elif use == "open stream":
        w = StreamWriter(dataset="out/stream", inner_writer=DiskWriter, format="jsonl", schema=False)
        w.append(dict(records[0]))
        keep.append(w)
    elif use == "batch":
        w = BatchWriter(dataset="out/batch", inner_writer=DiskWriter, format="jsonl", schema=False)
        w.append(dict(records[0]))
        w.finalize()
    elif use in ("read", "part read"):
        r = Reader(dataset="in/set", inner_reader=DiskReader, partitions=None, multiprocess=True, persistence=STORAGE_CLASS.NO_PERSISTANCE)
        got = next(iter(r)) if use == "part read" else list(r)
        keep.append(r)
    elif use == "kept read":
        keep.append(Reader(dataset="in/set", inner_reader=DiskReader, partitions=None, persistence=STORAGE_CLASS.DISK))
print(len([n for n in os.listdir(os.environ["TMPDIR"])]), flush=True)
{end}
'''
ENDS = {"normal": "", "exception": "raise ValueError('over')", "exit": "sys.exit(3)", "deleted": "del keep[:]"}


def exiting(ctx, case):
    import psutil

    from vf.core import REPO

    rng = ctx.rng
    home = os.path.join(ctx.scratch, f"e{case}")
    temp = home + "-tmp"
    os.makedirs(home + "/in/set")
    os.mkdir(temp)
    for b in range(6):
        with open(f"{home}/in/set/{b}.jsonl", "w") as f:
            for i in range(50):
                f.write(json.dumps({"_id": b * 1000 + i}) + "\n")
    uses = [rng.choice(["set", "reading set", "cycle", "gone", "stream", "open stream", "batch", "read", "part read", "kept read"]) for _ in range(rng.randint(1, 4))]
    end = rng.choice(list(ENDS))
    detail = dict(uses=uses, end=end)
    marker = f"vf-exit-{case}-{os.getpid()}"
    with open(home + "-stderr", "wb") as errors:
        process = subprocess.Popen([sys.executable, "-c", PROGRAM.format(repo=REPO, uses=uses, end=ENDS[end])], cwd=home, env=dict(os.environ, TMPDIR=temp, VF_MARK=marker), stdout=subprocess.PIPE, stderr=errors, start_new_session=True)
        out = []
        reader = threading.Thread(target=lambda: out.append(process.stdout.read()), daemon=True)
        reader.start()
        ended = until(lambda: process.poll() is not None, ticks=9000)

    def family():
        found = []
        for p in psutil.process_iter():
            try:
                if p.pid != process.pid and os.getsid(p.pid) == process.pid and p.status() != psutil.STATUS_ZOMBIE:
                    found.append(p.pid)
            except (psutil.Error, OSError):
                pass
        return found

    ctx.check(ended, "the process doesn't exit", **detail)
    if ended:
        expected = {"normal": 0, "deleted": 0, "exception": 1, "exit": 3}[end]
        with open(home + "-stderr", "rb") as errors:
            said = errors.read().decode("utf8", "replace")[-1500:]
        ctx.check(process.returncode == expected, "the process ended in another way", code=process.returncode, expected=expected, said=said, **detail)
        ctx.check(until(lambda: not family(), ticks=2000), "worker processes outlive the process", left=family(), **detail)
        left = os.listdir(temp)
        ctx.check(not left, "temporary files outlive the process", files=left[:5], **detail)
        changed = [n for n in snapshot(home) if not n.startswith(("in/", "out/"))]
        ctx.check(not changed, "files were made outside the dataset's folder", files=changed[:5], **detail)
    for pid in family() + ([process.pid] if not ended else []):
        os.kill(pid, 9)
    process.wait()
    reader.join(5)
    if out and out[0].strip().isdigit():
        ctx.count("temporary files before exit", int(out[0]))
    for path in (home, temp):
        shutil.rmtree(path, ignore_errors=True)
    os.remove(home + "-stderr")
    ctx.count("exits")
    ctx.seen(("exit", uses, end))


def warm_up(ctx):
    """the first use of a part may open things which stay open"""
    from mabel import DictSet, Reader
    from mabel.data.internals.dictset import STORAGE_CLASS

    store = Store()
    for i in range(6):
        store.put(f"ds/{i}.jsonl", b'{"a": 1}\n')
    list(Reader(dataset="ds", inner_reader=adapters(store)[1], partitions=None, multiprocess=True))
    list(DictSet([{"a": 1}], storage_class=STORAGE_CLASS.DISK))
    import pyarrow.parquet  # noqa

    writer_ = ctx.rng.getstate()
    count = dict(ctx.counters)
    for case in range(-1, -7, -1):
        writing(ctx, case)
    ctx.counters.clear()
    ctx.counters.update(count)
    ctx.rng.setstate(writer_)


def run(ctx):
    ctx.minimum = ctx.n(80, 800)
    temp = os.path.join(ctx.scratch, "tmp")
    os.mkdir(temp)
    os.environ["TMPDIR"] = temp
    import tempfile

    tempfile.tempdir = None
    sys.addaudithook(audit)
    warm_up(ctx)
    ctx.deadline(25, 240)
    for case in range(ctx.n(1200, 20000)):
        if not ctx.more():
            break
        if case % 30 == 7:
            exiting(ctx, case)
        else:
            (writing, keeping, reading, keeping)[case % 4](ctx, case)
    ctx.require("writers", 20)
    ctx.require("attendants", 10)
    ctx.require("failed finalizes", 3)
    ctx.require("sets on disk", 30)
    ctx.require("reads", 20)
    ctx.require("multiprocess reads", 2)
    ctx.require("exits", 3)
    ctx.require("failing sources", 5)
