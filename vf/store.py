"""
An in-memory object store, and inner writers/readers over it, which record every call at
the storage boundary. Faults, crashes and delays are injected here - this is the only
boundary between mabel and the outside world for Readers and Writers.
"""

import threading
import time
import traceback

from mabel.data.readers.internals.base_inner_reader import BaseInnerReader
from mabel.data.writers.internals.base_inner_writer import BaseInnerWriter


class Injected(Exception):
    """marks what was injected, whichever kind of exception it also is"""


class StorageFault(Injected, IOError):
    """injected"""


def faults():
    """one injected exception for each kind of failure a storage client may raise"""
    kinds = (TimeoutError, ConnectionResetError, FileExistsError, FileNotFoundError, PermissionError, ValueError, TypeError, KeyError, IndexError,
             AttributeError, RuntimeError, AssertionError, ArithmeticError, NotImplementedError, BufferError, EOFError, ImportError)
    return [StorageFault] + [type(f"Storage{kind.__name__}", (Injected, kind), {}) for kind in kinds]


class Crash(BaseException):
    """the process stops here"""


class Store:
    def __init__(self):
        self.lock = threading.RLock()
        self.blobs = {}
        self.events = []  # (seq, op, name, thread, size)
        self.overwrites = []
        self.before_put = None  # callable(index, name, data), may raise
        self.after_put = None  # callable(index, name, data), may raise
        self.before_get = None  # callable(name)
        self.on_list = None
        self.transform_get = None
        self.puts = 0

    def log(self, op, name, size=0):
        self.events.append((len(self.events), op, name, threading.get_ident(), size))

    def put(self, name, data):
        name = norm(name)
        with self.lock:
            index = self.puts
            self.puts += 1
            self.log("put", name, len(data))
        if self.before_put is not None:
            self.before_put(index, name, data)
        with self.lock:
            if name in self.blobs and not name.endswith("frame.complete"):
                self.overwrites.append((name, self.blobs[name], bytes(data)))
            self.blobs[name] = bytes(data)
            self.log("stored", name, len(data))
        if self.after_put is not None:
            self.after_put(index, name, data)

    def get(self, name):
        name = norm(name)
        with self.lock:
            self.log("get", name)
        if self.before_get is not None:
            self.before_get(name)
        with self.lock:
            data = self.blobs[name]
        if self.transform_get is not None:
            data = self.transform_get(name, data)
        return data

    def list(self, path):
        prefix = norm(str(path)).rstrip("/") + "/"
        with self.lock:
            self.log("list", prefix)
        if self.on_list is not None:
            self.on_list(prefix)
        with self.lock:
            return [name for name in self.blobs if name.startswith(prefix)]

    def ops(self, op):
        return [e for e in self.events if e[1] == op]

    def copy(self):
        twin = Store()
        with self.lock:
            twin.blobs = dict(self.blobs)
        return twin

    def data_blobs(self):
        return {k: v for k, v in self.blobs.items() if "/frame." not in k}


def norm(name):
    name = str(name)
    while "//" in name:
        name = name.replace("//", "/")
    return name


def adapters(store):
    """(inner_writer, inner_reader) for this store"""

    class MemWriter(BaseInnerWriter):
        def __init__(self, **kwargs):
            super().__init__(**kwargs)

        def commit(self, byte_data, override_blob_name=None):
            name = override_blob_name or self._build_path()
            store.put(name, byte_data)
            return name

    class MemReader(BaseInnerReader):
        def __init__(self, **kwargs):
            super().__init__(**kwargs)

        def get_blobs_at_path(self, path):
            return store.list(path)

        def get_blob_bytes(self, blob):
            return store.get(blob)

    return MemWriter, MemReader


def slow(low, high, rng):
    """a delay injector, for before_put"""

    def inner(index, name, data):
        time.sleep(rng.uniform(low, high))

    return inner
