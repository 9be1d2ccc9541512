"""
Stand-ins for the MinIO and Google Cloud Storage client libraries over one in-memory object
store, which keep to the documented behaviour of the parts of those clients an adapter could
reasonably use, record every call and let faults be injected into any of them.
"""

import contextlib
import io
import threading
import types


class Objects:
    """buckets of objects, a log of the calls and the faults to come"""

    def __init__(self):
        self.lock = threading.RLock()
        self.buckets = {}
        self.calls = []
        self.fault = None  # callable(call, bucket, name) which may raise
        self.opened = 0
        self.closed = 0
        self.overwrites = []
        self.clients = []

    def call(self, what, bucket, name):
        with self.lock:
            self.calls.append((what, bucket, name))
        if self.fault is not None:
            self.fault(what, bucket, name)

    def count(self, what):
        return sum(1 for c in self.calls if c[0] == what)

    def put(self, bucket, name, data):
        with self.lock:
            there = self.buckets[bucket]
            if there.get(name, data) != data:
                self.overwrites.append((bucket, name))
            there[name] = bytes(data)

    def names(self, bucket, prefix):
        # in the order of their names, as the services do
        with self.lock:
            return [n for n in sorted(self.buckets[bucket], key=lambda n: n.encode()) if n.startswith(prefix or "")]


class Response(io.BytesIO):
    """what get_object returns, when it was got the read can still fail"""

    def __init__(self, objects, bucket, name, data):
        super().__init__(data)
        self._about = (objects, bucket, name)
        self.status = 200
        objects.opened += 1

    def read(self, *args, **kwargs):
        objects, bucket, name = self._about
        objects.call("read", bucket, name)
        kwargs.pop("decode_content", None)
        return super().read(*args)

    @property
    def data(self):
        return self.read()

    def stream(self, amt=32 * 1024, decode_content=None):
        while True:
            part = self.read(amt)
            if not part:
                return
            yield part

    def close(self):
        if not self.closed:
            self._about[0].closed += 1
        super().close()

    def __del__(self):
        # closing it when it's collected isn't soon enough
        pass

    def release_conn(self):
        pass


def minio(objects):
    from minio.error import S3Error

    def missing(code, bucket, name):
        error = S3Error.__new__(S3Error)
        Exception.__init__(error, f"{code} {bucket} {name}")
        error._code = code
        return error

    class Minio:
        def __init__(self, endpoint, access_key=None, secret_key=None, session_token=None, secure=True, **kwargs):
            objects.clients.append({"endpoint": endpoint, "access_key": access_key, "secret_key": secret_key, "secure": secure})

        def bucket_exists(self, bucket_name):
            objects.call("bucket", bucket_name, "")
            return bucket_name in objects.buckets

        def _bucket(self, bucket_name):
            if bucket_name not in objects.buckets:
                raise missing("NoSuchBucket", bucket_name, "")

        def list_objects(self, bucket_name, prefix=None, recursive=False, start_after=None, **kwargs):
            # the request is made when the first object is asked for
            objects.call("list", bucket_name, prefix)
            self._bucket(bucket_name)
            folders = set()
            for name in objects.names(bucket_name, prefix):
                if start_after and name <= start_after:
                    continue
                rest = name[len(prefix or ""):]
                if not recursive and "/" in rest:
                    folder = (prefix or "") + rest.split("/")[0] + "/"
                    if folder not in folders:
                        folders.add(folder)
                        yield types.SimpleNamespace(bucket_name=bucket_name, object_name=folder, is_dir=True, size=None)
                    continue
                yield types.SimpleNamespace(bucket_name=bucket_name, object_name=name, is_dir=name.endswith("/"), size=len(objects.buckets[bucket_name].get(name, b"")))

        def put_object(self, bucket_name, object_name, data, length, content_type="application/octet-stream", metadata=None, *args, part_size=0, **kwargs):
            objects.call("put", bucket_name, object_name)
            self._bucket(bucket_name)
            if not callable(getattr(data, "read", None)):
                raise ValueError("input data must have callable read()")
            if length < 0 and not part_size:
                raise ValueError("valid part_size must be provided when object size is unknown")
            content = data.read(length) if length >= 0 else data.read()
            if not isinstance(content, (bytes, bytearray)):
                raise ValueError("read() must return 'bytes' object")
            if length >= 0 and len(content) != length:
                raise OSError(f"stream having not enough data; expected: {length}, got: {len(content)} bytes")
            objects.put(bucket_name, object_name, content)
            objects.call("stored", bucket_name, object_name)
            return types.SimpleNamespace(bucket_name=bucket_name, object_name=object_name)

        def get_object(self, bucket_name, object_name, offset=0, length=0, **kwargs):
            objects.call("get", bucket_name, object_name)
            self._bucket(bucket_name)
            if object_name not in objects.buckets[bucket_name]:
                raise missing("NoSuchKey", bucket_name, object_name)
            data = objects.buckets[bucket_name][object_name][offset:]
            return Response(objects, bucket_name, object_name, data[:length] if length else data)

        def stat_object(self, bucket_name, object_name, **kwargs):
            objects.call("stat", bucket_name, object_name)
            self._bucket(bucket_name)
            if object_name not in objects.buckets[bucket_name]:
                raise missing("NoSuchKey", bucket_name, object_name)
            return types.SimpleNamespace(size=len(objects.buckets[bucket_name][object_name]))

    return Minio


def google(objects):
    from google.api_core.exceptions import NotFound

    class Blob:
        def __init__(self, name, bucket=None, chunk_size=None, **kwargs):
            self.name = name
            self.bucket = bucket

        @property
        def size(self):
            data = objects.buckets[self.bucket.name].get(self.name)
            return None if data is None else len(data)

        def upload_from_string(self, data, content_type="text/plain", **kwargs):
            if isinstance(data, str):
                data = data.encode("utf-8")
            objects.call("put", self.bucket.name, self.name)
            objects.put(self.bucket.name, self.name, bytes(data))
            objects.call("stored", self.bucket.name, self.name)

        def upload_from_file(self, file_obj, rewind=False, size=None, content_type=None, **kwargs):
            if rewind:
                file_obj.seek(0)
            self.upload_from_string(file_obj.read() if size is None else file_obj.read(size))

        def exists(self, *args, **kwargs):
            objects.call("stat", self.bucket.name, self.name)
            return self.name in objects.buckets[self.bucket.name]

        def download_as_bytes(self, *args, **kwargs):
            objects.call("get", self.bucket.name, self.name)
            if self.name not in objects.buckets[self.bucket.name]:
                raise NotFound(f"No such object: {self.name}")
            return objects.buckets[self.bucket.name][self.name]

        download_as_string = download_as_bytes

        def download_to_file(self, file_obj, *args, **kwargs):
            file_obj.write(self.download_as_bytes())

    class Bucket:
        def __init__(self, client, name):
            self.client = client
            self.name = name

        def blob(self, blob_name, **kwargs):
            return Blob(blob_name, bucket=self)

        def get_blob(self, blob_name, *args, **kwargs):
            objects.call("stat", self.name, blob_name)
            return self.blob(blob_name) if blob_name in objects.buckets[self.name] else None

        def list_blobs(self, *args, **kwargs):
            return self.client.list_blobs(self, *args, **kwargs)

        def exists(self, *args, **kwargs):
            return self.name in objects.buckets

    class Client:
        def __init__(self, project=None, credentials=None, **kwargs):
            objects.clients.append({"credentials": credentials})

        def bucket(self, bucket_name, **kwargs):
            return Bucket(self, bucket_name)

        def get_bucket(self, bucket_or_name, **kwargs):
            name = getattr(bucket_or_name, "name", bucket_or_name)
            objects.call("bucket", name, "")
            if name not in objects.buckets:
                raise NotFound(f"The specified bucket does not exist: {name}")
            return Bucket(self, name)

        lookup_bucket = get_bucket

        def list_blobs(self, bucket_or_name, max_results=None, page_token=None, prefix=None, delimiter=None, **kwargs):
            name = getattr(bucket_or_name, "name", bucket_or_name)

            def pages():
                objects.call("list", name, prefix)
                if name not in objects.buckets:
                    raise NotFound(f"The specified bucket does not exist: {name}")
                for count, blob in enumerate(objects.names(name, prefix)):
                    if max_results is not None and count >= max_results:
                        return
                    if delimiter and delimiter in blob[len(prefix or ""):]:
                        continue
                    yield Bucket(self, name).blob(blob)

            return pages()

    return types.SimpleNamespace(Client=Client, Blob=Blob, Bucket=Bucket)


class Hurried:
    """the clock of the retry helper: sleeping takes no time, and moves it on"""

    def __init__(self):
        self.now = 0.0
        self.naps = 0

    def sleep(self, seconds):
        self.now += seconds
        self.naps += 1

    def monotonic(self):
        return self.now

    def time(self):
        return self.now


@contextlib.contextmanager
def installed(objects):
    """mabel's adapters use the stand-ins; yields (kinds, clock)"""
    import os

    from google.api_core.retry import retry_base, retry_unary

    import mabel.adapters.google.google_cloud_storage_reader as gr
    import mabel.adapters.google.google_cloud_storage_writer as gw
    import mabel.adapters.minio.minio_reader as mr
    import mabel.adapters.minio.minio_writer as mw

    clock = Hurried()
    stand_in = minio(objects)
    cloud = google(objects)
    undo = []

    def swap(module, name, value):
        undo.append((module, name, getattr(module, name)))
        setattr(module, name, value)

    swap(mr, "Minio", stand_in)
    swap(mw, "Minio", stand_in)
    swap(gr, "storage", cloud)
    swap(gw, "storage", cloud)
    swap(retry_base, "time", clock)
    swap(retry_unary, "time", clock)
    emulator = os.environ.get("STORAGE_EMULATOR_HOST")
    os.environ["STORAGE_EMULATOR_HOST"] = "http://localhost:1"
    try:
        yield {
            "minio": (mw.MinIoWriter, mr.MinIoReader, {"end_point": "storage.test:9000", "access_key": "key", "secret_key": "secret", "secure": False}),
            "google": (gw.GoogleCloudStorageWriter, gr.GoogleCloudStorageReader, {}),
        }, clock
    finally:
        for module, name, value in undo:
            setattr(module, name, value)
        if emulator is None:
            os.environ.pop("STORAGE_EMULATOR_HOST", None)
        else:
            os.environ["STORAGE_EMULATOR_HOST"] = emulator
