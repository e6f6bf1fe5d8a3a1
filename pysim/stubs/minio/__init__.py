"""The object storage client, version 4 to 6, over the simulated store."""
import io
import os

from . import error  # noqa: F401
from .error import InvalidArgumentError, InvalidSizeError

cur = [None]  # the Store of the running scenario


class Minio(object):
    def __init__(self, endpoint, access_key=None, secret_key=None, session_token=None, secure=True, region=None, http_client=None, **k):
        self._s = cur[0]

    def bucket_exists(self, bucket_name):
        return self._s.request("HEAD", bucket_name, None)

    def make_bucket(self, bucket_name, location="us-east-1"):
        return self._s.request("MAKE", bucket_name, None)

    def put_object(self, bucket_name, object_name, data, length, content_type="application/octet-stream", metadata=None, **k):
        if length < 0:
            raise InvalidArgumentError("length")
        b = b""
        while len(b) < length:
            c = data.read(min(4096, length - len(b)))
            if not c:
                raise InvalidArgumentError("Could not read %d bytes from data to upload" % length)
            b += c
        return self._s.request("PUT", bucket_name, object_name, b)

    def fput_object(self, bucket_name, object_name, file_path, content_type="application/octet-stream", metadata=None, **k):
        with open(file_path, "rb") as f:
            return self.put_object(bucket_name, object_name, f, os.stat(file_path).st_size)

    def get_object(self, bucket_name, object_name, **k):
        return Answer(*self._s.request("GET", bucket_name, object_name))

    def fget_object(self, bucket_name, object_name, file_path, **k):
        if os.path.isdir(file_path):
            raise OSError("file is a directory.")
        part = file_path + ".x.part.minio"
        size, b, err = self._s.request("GET", bucket_name, object_name)
        with open(part, "wb") as f:
            for i in range(0, len(b), 4096):
                f.write(b[i:i + 4096])
        if err:
            raise err
        if len(b) < size:
            raise InvalidSizeError("%d of %d bytes" % (len(b), size))
        os.rename(part, file_path)

    def stat_object(self, bucket_name, object_name, **k):
        return self._s.request("STAT", bucket_name, object_name)

    def remove_object(self, bucket_name, object_name):
        return self._s.request("DELETE", bucket_name, object_name)


class Answer(io.BytesIO):
    def __init__(self, size, b, err):
        io.BytesIO.__init__(self, b)
        self._err = err
        self.headers = {"Content-Length": str(size)}

    def read(self, *a, **k):
        b = io.BytesIO.read(self, *a[:1])
        if self._err and self.tell() == len(self.getbuffer()):
            raise self._err
        return b

    def stream(self, n=65536, **k):
        while True:
            b = self.read(n)
            if not b:
                return
            yield b

    def release_conn(self):
        pass
