"""
Threads, scheduler pressure and bounded progress.

Progress is never judged on wall clock alone: a canary thread counts its own short sleeps,
so a starved machine slows the canary as much as it slows the code being watched.
"""

import contextlib
import sys
import threading
import time


class Canary:
    def __init__(self, step=0.01):
        self.step = step
        self.ticks = 0
        self._stop = False
        self._thread = threading.Thread(target=self._run, daemon=True, name="vf-canary")
        self._thread.start()

    def _run(self):
        while not self._stop:
            time.sleep(self.step)
            self.ticks += 1

    def stop(self):
        self._stop = True


@contextlib.contextmanager
def switch_interval(seconds):
    before = sys.getswitchinterval()
    sys.setswitchinterval(seconds)
    try:
        yield
    finally:
        sys.setswitchinterval(before)


def until(condition, ticks=2500):
    """wait for the condition, give up after this many canary ticks (about 10ms each)"""
    canary = Canary()
    try:
        while not condition():
            if canary.ticks >= ticks:
                return False
            time.sleep(0.01)
        return True
    finally:
        canary.stop()


def run_threads(functions, progress=None, ticks=4500):
    """
    Run each function in its own thread, all started together.

    Returns (errors, stuck): the exceptions by index, and if they stopped making progress
    for `ticks` canary ticks.
    """
    barrier = threading.Barrier(len(functions))
    errors = {}

    def wrap(index, function):
        try:
            barrier.wait()
            function()
        except BaseException as err:  # noqa - reported by the caller
            errors[index] = err

    threads = [
        threading.Thread(target=wrap, args=(i, f), daemon=True, name=f"vf-{i}")
        for i, f in enumerate(functions)
    ]
    for thread in threads:
        thread.start()
    canary = Canary()
    last, mark = None, 0
    try:
        while True:
            alive = [t for t in threads if t.is_alive()]
            if not alive:
                return errors, False
            alive[0].join(0.01)
            now = (len(alive), progress() if progress else None)
            if now != last:
                last, mark = now, canary.ticks
            elif canary.ticks - mark > ticks:
                return errors, True
    finally:
        canary.stop()


def stacks():
    """where every thread is, for a witness"""
    import traceback

    names = {t.ident: t.name for t in threading.enumerate()}
    return {
        names.get(ident, str(ident)): [f"{f.filename.split('/')[-1]}:{f.lineno} {f.name}" for f in traceback.extract_stack(frame)][-4:]
        for ident, frame in list(sys._current_frames().items())
    }
