"""
The verdict discipline shared by every check: counters, three-valued verdicts, replay
files, known findings, evidence, scratch directory and watchdog.
"""

import argparse
import ctypes
import faulthandler
import glob
import hashlib
import importlib
import json
import mmap
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import types

REPO = os.environ.get("VF_REPO", "/repo")

# a run which hasn't finished by now is inconclusive - never a violation
WATCHDOG = {"quick": 600, "thorough": 5400}
# a check which observes nothing for so long is looked at, to see if the code under test is stuck
QUIET = {"quick": 200, "thorough": 900}
MEMORY = 14 * 1024**3


class Beat:
    """what the process running the check shares with the one watching it"""

    def __init__(self, fd):
        self.memory = mmap.mmap(fd, 16)

    def observed(self):
        self.memory[0:8] = (int.from_bytes(self.memory[0:8], "big") + 1).to_bytes(8, "big")

    def violated(self):
        self.memory[8:16] = (1).to_bytes(8, "big")

    def read(self):
        return bytes(self.memory[0:8]), any(self.memory[8:16])


class Inconclusive(Exception):
    pass


class Stop(Exception):
    """enough violations have been seen"""


def canon(value):
    """a JSON-able, type-preserving rendering of a value - for signatures and replays"""
    if value is None or isinstance(value, (bool, str)):
        return value
    if isinstance(value, int):
        return value if abs(value) < 2**53 else {"int": str(value)}
    if isinstance(value, float):
        return {"f": repr(value)}
    if isinstance(value, dict):
        return {str(k): canon(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [canon(v) for v in value]
    if isinstance(value, (set, frozenset)):
        return {"set": sorted(repr(v) for v in value)}
    return {type(value).__name__: repr(value)}


def sig(value):
    return hashlib.blake2b(
        json.dumps(canon(value), sort_keys=True).encode("utf8", "surrogatepass"), digest_size=8
    ).digest()


class Ctx:
    def __init__(self, pid, tier, seed, root):
        self.pid = pid
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = seed
        self.root = root
        self.rng = random.Random(f"{pid}-{seed}-{tier}")
        self.started = time.monotonic()
        self.evaluations = 0
        self._distinct = set()
        self.samples = []
        self.counters = {}
        self.violations = 0
        self.known = {}
        self.known_seen = {}
        self.lock = threading.RLock()
        self.rule = ""
        self.assumptions = []
        self.max_violations = 3
        self.budget = None
        self.beat = None
        self.minimum = 1
        self.scratch = None
        self.out = sys.stdout

    def say(self, text):
        print(text, file=self.out, flush=True)

    # --- effort
    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def deadline(self, quick, thorough):
        """sets a soft time budget, loops should check ctx.more()"""
        self.budget = time.monotonic() + (quick if self.quick else thorough)

    def more(self):
        """a slow machine gets longer to see enough"""
        if self.budget is None or time.monotonic() < self.budget:
            return True
        return len(self._distinct) < 1.5 * self.minimum and time.monotonic() < self.started + 240

    # --- observations
    def seen(self, signature, nontrivial=True, sample=None):
        """one oracle evaluation"""
        with self.lock:
            self.evaluations += 1
            if self.beat:
                self.beat.observed()
            if nontrivial:
                before = len(self._distinct)
                self._distinct.add(sig(signature))
                if len(self._distinct) != before and len(self.samples) < 6:
                    if before in (0, 1, 7, 40, 150, 600):
                        self.samples.append(canon(sample if sample is not None else signature))

    def count(self, name, by=1):
        with self.lock:
            if self.beat:
                self.beat.observed()
            self.counters[name] = self.counters.get(name, 0) + by

    def low(self, name):
        return self.counters.get(name, 0)

    # --- verdicts
    def violation(self, what, key=None, **detail):
        """
        key identifies the mechanism, if it is one listed in known_findings.json this is
        reported as a KNOWN-FINDING and doesn't fail the check.
        """
        with self.lock:
            if key is not None and key in self.known:
                self.known_seen[key] = self.known_seen.get(key, 0) + 1
                return
            self.violations += 1
            if self.beat:
                self.beat.violated()
            folder = os.path.join(self.root, "evidence", "replays")
            os.makedirs(folder, exist_ok=True)
            path = os.path.join(folder, f"{self.pid}-{self.tier}-{self.violations}.json")
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": self.pid,
                        "tier": self.tier,
                        "seed": self.seed,
                        "what": what,
                        "detail": canon(detail),
                        "rerun": f"VERIF_SEED={self.seed} python3 /verif/run.py {self.pid} --tier {self.tier}",
                    },
                    f,
                    indent=1,
                    sort_keys=True,
                )
            self.say(f"VIOLATION property={self.pid} replay={path}")
            self.say(f"    {what}"[:2000])
            text = json.dumps(canon(detail), sort_keys=True)
            self.say(f"    {text[:1500]}")
            if self.violations >= self.max_violations:
                raise Stop()

    def check(self, ok, what, key=None, **detail):
        if not ok:
            self.violation(what, key=key, **detail)
        return bool(ok)

    def guard(self, what, func, *args, key=None, detail=None, **kwargs):
        """
        Call something which must not raise, returns (ok, result).
        """
        try:
            return True, func(*args, **kwargs)
        except (Stop, Inconclusive, KeyboardInterrupt, MemoryError):
            raise
        except BaseException as err:
            self.violation(
                f"{what}: raised {type(err).__name__}: {err}",
                key=key,
                detail=detail,
                traceback=traceback.format_exc()[-3000:],
            )
            return False, None

    def require(self, name, minimum):
        """the monitor must have been reached, or the run says nothing"""
        if self.low(name) < minimum:
            raise Inconclusive(f"{name} was observed {self.low(name)} times, need {minimum}")


def end_children():
    """worker processes which were left behind would keep our output open"""
    try:
        import psutil

        for child in psutil.Process().children(recursive=True):
            child.kill()
    except Exception:  # nosec - it's on the way out
        pass


def load_known(root, pid):
    path = os.path.join(root, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        entries = json.load(f)["findings"]
    return {e["key"]: e for e in entries if e["property"] == pid}


def quiet_logging():
    import logging

    from orso.logging import get_logger

    log = get_logger()
    log.setLevel(1000)
    logging.disable(logging.CRITICAL)


def write_evidence(ctx, level, note=None):
    folder = os.path.join(ctx.root, "evidence")
    os.makedirs(folder, exist_ok=True)
    coverage = {
        "evaluations": ctx.evaluations,
        "distinct_nontrivial": len(ctx._distinct),
        "rule": ctx.rule,
        "samples": ctx.samples,
    }
    if ctx.counters:
        coverage["observed"] = dict(sorted(ctx.counters.items()))
    if note:
        coverage["note"] = note
    if ctx.known_seen:
        coverage["known_findings_observed"] = ctx.known_seen
    evidence = {
        "property": ctx.pid,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": level,
        "coverage": coverage,
        "assumptions": ctx.assumptions,
        "wall_s": round(time.monotonic() - ctx.started, 3),
        "violations": ctx.violations,
    }
    with open(os.path.join(folder, f"{ctx.pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")


CRASHES = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT}


def stuck(child, stacks):
    """is the code under test what the check is waiting for, whenever it's looked at?"""
    inside = os.path.realpath(REPO) + "/mabel/"
    for _ in range(4):
        stacks.seek(0)
        stacks.truncate()
        child.send_signal(signal.SIGUSR1)
        time.sleep(5)
        if child.poll() is not None:
            return None
        stacks.seek(0)
        found = None
        for stack in stacks.read().decode("utf8", "replace").split("hread 0x")[1:]:
            # the newest call is first: the harness has called the code under test
            files = [os.path.realpath(line.split('"')[1]) for line in stack.split("\n") if line.strip().startswith('File "')]
            calls = [at for at, name in enumerate(files) if name.startswith(inside)]
            if calls and any(f"{os.sep}checks{os.sep}" in name for name in files[calls[0] + 1 :]):
                found = stack
        if found is None:
            return None
    return found


def supervise(argv, root):
    """
    The check is run in a process of its own, which the code under test could crash, like with
    compressors which are used by many threads, or never return from: those are violations too.
    """
    args = parse(argv)
    started = time.monotonic()
    stacks, shared = tempfile.TemporaryFile(), tempfile.TemporaryFile()
    shared.truncate(16)
    beat = Beat(shared.fileno())
    child = subprocess.Popen(
        [sys.executable, os.path.join(root, "run.py"), *argv],
        env={**os.environ, "VF_CHILD": f"{os.getpid()} {stacks.fileno()} {shared.fileno()}"},
        pass_fds=[stacks.fileno(), shared.fileno()],
    )
    for number in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        signal.signal(number, lambda number, frame: child.send_signal(number))

    def violated(what, **detail):
        ctx = Ctx(args.property, args.tier, args.seed, root)
        ctx.started = started
        ctx.rule = "the process running the check crashed, or had to be ended"
        ctx.violation(what, **detail)
        write_evidence(ctx, "exploration")
        return 1

    last, since, code, where = None, time.monotonic(), None, None
    while code is None:
        try:
            code = child.wait(5)
            continue
        except subprocess.TimeoutExpired:
            now = beat.read()[0]
        if now != last:
            last, since = now, time.monotonic()
        late = time.monotonic() - started > WATCHDOG[args.tier] + 120
        if time.monotonic() - since > QUIET[args.tier] or late:
            where = stuck(child, stacks)
            if (where and beat.read()[0] == last) or late:
                break
            where, since = None, time.monotonic()
    if code is None:
        try:
            import psutil

            for worker in psutil.Process(child.pid).children(recursive=True):
                worker.kill()
        except Exception:  # nosec - it's ended anyway
            pass
        child.kill()
        child.wait()
    for folder in glob.glob(os.path.join(tempfile.gettempdir(), f"vf-{args.property}-{child.pid}-*")):
        shutil.rmtree(folder, ignore_errors=True)
    if code is None:
        if beat.read()[1]:
            return 1
        if where:
            return violated("an operation doesn't finish", stack=where[-3000:])
        print(f"INCONCLUSIVE property={args.property} it stopped, and couldn't be interrupted", flush=True)
        return 2
    if code == 1 and not beat.read()[1]:
        print(f"ERROR property={args.property} the check failed to start", flush=True)
        return 2
    if code >= 0:
        return code
    if -code in CRASHES:
        return violated(f"the code under test crashed the interpreter, with {signal.Signals(-code).name}")
    print(f"INCONCLUSIVE property={args.property} it was ended by signal {-code}", flush=True)
    return 2


SHAPES = (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)


def parse(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    parser.add_argument("--replay", default=None)
    args = parser.parse_args(argv)
    if args.replay:
        with open(args.replay) as f:
            replay = json.load(f)
        args.property, args.tier, args.seed = replay["property"], replay["tier"], replay["seed"]
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    return args


def main(argv, root):
    watched = os.environ.get("VF_CHILD", "").split()
    if watched[:1] != [str(os.getppid())]:
        return supervise(argv, root)
    # code which never ends often also never stops asking for memory
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY if hard == resource.RLIM_INFINITY else min(MEMORY, hard), hard))
    # this process goes when the one watching it does
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    args = parse(argv)
    pid = args.property

    faulthandler.enable()
    faulthandler.register(signal.SIGUSR1, file=int(watched[1]), all_threads=True)
    ctx = Ctx(pid, args.tier, args.seed, root)
    ctx.beat = Beat(int(watched[2]))
    ctx.known = load_known(root, pid)
    module = None
    code = 2
    home = os.getcwd()
    owner = os.getpid()
    ctx.scratch = tempfile.mkdtemp(prefix=f"vf-{pid}-{os.getpid()}-")
    os.environ["TMPDIR"] = ctx.scratch
    tempfile.tempdir = None

    def bite():
        ctx.say(f"INCONCLUSIVE property={pid} watchdog expired")
        faulthandler.dump_traceback(all_threads=True)
        end_children()
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        os._exit(1 if ctx.violations else 2)

    dog = threading.Timer(WATCHDOG[args.tier], bite)
    dog.daemon = True
    dog.start()

    try:
        os.chdir(ctx.scratch)
        try:
            module = importlib.import_module(f"checks.{pid.lower()}")
            import mabel

            if not os.path.realpath(mabel.__file__).startswith(os.path.realpath(REPO) + "/"):
                raise Inconclusive(f"mabel was imported from {mabel.__file__}")
            quiet_logging()
            ctx.rule = (module.__doc__ or "").strip()
            ctx.assumptions = list(getattr(module, "ASSUMPTIONS", []))
            # the code under test prints, only verdicts go to stdout
            sys.stdout = open(os.devnull, "w")
            threading.excepthook = lambda args: ctx.count("exceptions_in_threads")
            sys.unraisablehook = lambda args: ctx.count("exceptions_in_destructors")
            module.run(ctx)
        except Stop:
            pass
        if ctx.violations:
            code = 1
        elif len(ctx._distinct) < ctx.minimum or not ctx.evaluations:
            raise Inconclusive(
                f"{ctx.evaluations} evaluations, {len(ctx._distinct)} distinct, need {ctx.minimum}"
            )
        else:
            code = 0
    except Inconclusive as err:
        sys.stdout = ctx.out
        print(f"INCONCLUSIVE property={pid} {err}", flush=True)
        code = 1 if ctx.violations else 2
    except BaseException as err:
        sys.stdout = ctx.out
        if os.getpid() != owner:
            raise
        frames = [frame.f_code.co_filename for frame, _ in traceback.walk_tb(err.__traceback__)]
        if any(name.startswith(os.path.realpath(REPO) + "/mabel/") for name in map(os.path.realpath, frames)):
            # none of the workloads makes the library fail like this when it works
            try:
                ctx.violation(f"the library failed: {type(err).__name__}: {err}", traceback=traceback.format_exc()[-3000:])
            except Stop:
                pass
        elif isinstance(err, SHAPES) and not (isinstance(err, AttributeError) and isinstance(err.obj, types.ModuleType)):
            # nor gives answers which can't be judged, like None for a list
            try:
                ctx.violation(f"an answer isn't of a kind which can be judged: {type(err).__name__}: {err}", traceback=traceback.format_exc()[-3000:])
            except Stop:
                pass
        else:
            print(f"ERROR property={pid} {type(err).__name__}: {err}", flush=True)
            traceback.print_exc()
        code = 1 if ctx.violations else 2
    finally:
        sys.stdout = ctx.out
        if os.getpid() == owner:
            end_children()
            os.chdir(home)
            shutil.rmtree(ctx.scratch, ignore_errors=True)

    for key, entry in sorted(ctx.known.items()):
        if key in ctx.known_seen:
            print(f"KNOWN-FINDING: property={pid} {entry['what']}")
    write_evidence(ctx, getattr(module, "LEVEL", "exploration"))
    print(
        f"{pid} {args.tier} seed={args.seed}: {'held' if code == 0 else 'violated' if code == 1 else 'inconclusive'}"
        f" - {ctx.evaluations} evaluations, {len(ctx._distinct)} distinct, "
        f"{time.monotonic() - ctx.started:.1f}s",
        flush=True,
    )
    dog.cancel()
    sys.stdout.flush()
    sys.stderr.flush()
    # background threads of the code under test must not decide how we leave
    os._exit(code)
