"""A stand-in for requests over the simulated network (simnet): what requests
2.24 with urllib3 1.26, the versions the repository asks for, sends and gives
back, including that a body cut off before its announced length is no error."""
import base64
import io
import json as _json
import os
import zlib
from urllib.parse import quote, unquote_to_bytes, urlencode, urljoin, urlsplit

import simnet

from . import adapters, auth, exceptions, packages
from .auth import HTTPBasicAuth
from .exceptions import (ChunkedEncodingError, ConnectionError, ConnectTimeout, ContentDecodingError, HTTPError, InvalidSchema, InvalidURL,
                         MissingSchema, ReadTimeout, RequestException, SSLError, StreamConsumedError, Timeout, TooManyRedirects)

__version__ = "2.24.0"
UNRESERVED = frozenset(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~")


class _Codes(dict):
    __getattr__ = dict.get


codes = _Codes(ok=200, created=201, accepted=202, no_content=204, temporary_redirect=307, bad_request=400, unauthorized=401, forbidden=403, not_found=404, conflict=409,
               internal_server_error=500, bad_gateway=502, service_unavailable=503)


class CaseInsensitiveDict(dict):
    def __init__(self, d=()):
        dict.__init__(self)
        self.update(d)

    def update(self, d=(), **k):
        for a, b in dict(d, **k).items():
            self[a] = b

    def __setitem__(self, k, v):
        dict.__setitem__(self, k.lower(), v)

    def __getitem__(self, k):
        return dict.__getitem__(self, k.lower())

    def __delitem__(self, k):
        dict.__delitem__(self, k.lower())

    def __contains__(self, k):
        return dict.__contains__(self, k.lower())

    def get(self, k, d=None):
        return dict.get(self, k.lower(), d)

    def pop(self, k, *d):
        return dict.pop(self, k.lower(), *d)

    def setdefault(self, k, d=None):
        return dict.setdefault(self, k.lower(), d)


def _requote(uri):
    parts = uri.split("%")
    for i in range(1, len(parts)):
        h = parts[i][:2]
        if len(h) == 2 and h.isalnum():
            try:
                c = int(h, 16)
            except ValueError:
                return quote(uri, safe="!#$&'()*+,/:;=?@[]~")
            parts[i] = chr(c) + parts[i][2:] if c in UNRESERVED else "%" + parts[i]
        else:
            parts[i] = "%" + parts[i]
    return quote("".join(parts), safe="!#$%&'()*+,/:;=?@[]~")


def _params(p):
    if isinstance(p, (str, bytes)):
        return p if isinstance(p, str) else p.decode()
    out = []
    for k, vs in (p.items() if hasattr(p, "items") else p):
        if isinstance(vs, (str, bytes)) or not hasattr(vs, "__iter__"):
            vs = [vs]
        for v in vs:
            if v is not None:
                out.append((k, v))
    return urlencode(out, doseq=True)


def _super_len(o):
    total, pos = None, 0
    if hasattr(o, "__len__"):
        total = len(o)
    elif hasattr(o, "fileno"):
        try:
            total = os.fstat(o.fileno()).st_size
        except io.UnsupportedOperation:
            pass
    if hasattr(o, "tell"):
        try:
            pos = o.tell()
        except OSError:
            if total is not None:
                pos = total
        else:
            if hasattr(o, "seek") and total is None:
                try:
                    o.seek(0, 2)
                    total = o.tell()
                    o.seek(pos or 0)
                except OSError:
                    total = 0
    return max(0, (total or 0) - pos)


class _RawBody(object):
    """What urllib3 gives: read(amt), tell(), headers."""

    def __init__(self, headers, wire, framing, end):
        self.headers = headers
        self._wire, self._framing, self._end = wire, framing, end  # end: None or an exception to raise after the bytes
        self._pos = 0
        self.closed = False

    def tell(self):
        return self._pos

    @property
    def length_remaining(self):
        n = self.headers.get("Content-Length")
        return None if n is None else int(n) - self._pos

    def pieces(self, amt):
        chunks = self._wire if self._framing == "chunked" else [b"".join(self._wire)]
        for c in chunks:
            step = amt or max(len(c), 1)
            for i in range(0, len(c), step):
                self._pos += len(c[i:i + step])
                yield c[i:i + step]
        if self._end is not None:
            raise self._end

    def stream(self, amt=65536, decode_content=None):
        d = zlib.decompressobj(31) if decode_content and self.headers.get("Content-Encoding") == "gzip" else None
        for p in self.pieces(amt):
            if d is not None:
                try:
                    p = d.decompress(p)
                except zlib.error as e:
                    raise ContentDecodingError(e)
            if p:
                yield p

    def read(self, amt=None, decode_content=None):
        if not hasattr(self, "_it"):
            self._buf = b""
            self._it = self.stream(amt or 65536, decode_content)
        while amt is None or len(self._buf) < amt:
            p = next(self._it, None)
            if p is None:
                break
            self._buf += p
        out, self._buf = (self._buf, b"") if amt is None else (self._buf[:amt], self._buf[amt:])
        return out

    def release_conn(self):
        pass

    def close(self):
        self.closed = True


class Response(object):
    def __init__(self):
        self._content = None
        self._consumed = False
        self.status_code, self.reason, self.url, self.encoding = None, "", "", None
        self.headers, self.history, self.raw, self.request = CaseInsensitiveDict(), [], None, None

    ok = property(lambda self: self.status_code < 400)
    is_redirect = property(lambda self: "location" in self.headers and self.status_code in (301, 302, 303, 307, 308))
    apparent_encoding = "utf-8"

    def __bool__(self):
        return self.ok

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return self.iter_content(128)

    def close(self):
        if self.raw:
            self.raw.close()

    def raise_for_status(self):
        if self.status_code >= 400:
            raise HTTPError("%d %s for url: %s" % (self.status_code, self.reason, self.url), response=self)

    def iter_content(self, chunk_size=1, decode_unicode=False):
        if chunk_size is not None and not isinstance(chunk_size, int):
            raise TypeError("chunk_size must be an int, it is instead a %s." % type(chunk_size))

        def stream():
            for p in self.raw.stream(chunk_size, True):
                yield p
            self._consumed = True
        if self._content is not None:
            n = chunk_size or max(1, len(self._content))
            return (self._content[i:i + n] for i in range(0, len(self._content), n))
        if self._consumed:
            raise StreamConsumedError()
        return stream()

    def iter_lines(self, chunk_size=512, decode_unicode=False, delimiter=None):
        return iter(b"".join(self.iter_content(chunk_size)).splitlines())

    @property
    def content(self):
        if self._content is None:
            if self._consumed:
                raise RuntimeError("The content for this response was already consumed")
            self._content = b"".join(self.iter_content(10240)) or b""
        return self._content

    @property
    def text(self):
        return self.content.decode(self.encoding or "utf-8", "replace")

    def json(self, **k):
        return _json.loads(self.text, **k)


class Session(object):
    def __init__(self):
        self.auth, self.verify, self.params, self.headers, self.trust_env, self.max_redirects = None, True, {}, CaseInsensitiveDict(), True, 30

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        pass

    def mount(self, prefix, adapter):
        pass

    def request(self, method, url, params=None, data=None, headers=None, cookies=None, files=None, auth=None, timeout=None, allow_redirects=True, proxies=None,
                hooks=None, stream=None, verify=None, cert=None, json=None):
        url = url.decode() if isinstance(url, bytes) else str(url)
        url = url.lstrip()
        if "://" not in url:
            raise MissingSchema("Invalid URL %r: No schema supplied." % url)
        if url.split(":", 1)[0].lower() not in ("http", "https"):
            raise InvalidSchema("No connection adapters were found for %r" % url)
        h = CaseInsensitiveDict({"User-Agent": "python-requests", "Accept-Encoding": "gzip, deflate", "Accept": "*/*"})
        h.update(self.headers)
        h.update({k: v for k, v in (headers or {}).items() if v is not None})
        p = dict(self.params, **params) if self.params and isinstance(params, dict) else (params or self.params)
        s = urlsplit(url)
        if not s.hostname:
            raise InvalidURL("Invalid URL %r: No host supplied" % url)
        q = s.query
        e = _params(p) if p else ""
        q = q + "&" + e if q and e else q or e
        full = _requote("%s://%s%s%s" % (s.scheme, s.netloc.rsplit("@", 1)[-1], s.path or "/", "?" + q if q else ""))
        body, length = None, None
        if json is not None and not data:
            body = _json.dumps(json).encode()
            h.setdefault("Content-Type", "application/json")
        elif data is not None and hasattr(data, "__iter__") and not isinstance(data, (str, bytes, list, tuple, dict)):
            body = data
        elif data:
            body = data if isinstance(data, (str, bytes)) else _params(data)
            if not isinstance(data, (str, bytes)):
                h.setdefault("Content-Type", "application/x-www-form-urlencoded")
        start = None
        if body is not None:
            n = _super_len(body)
            start = body.tell() if hasattr(body, "tell") else None
            if n or isinstance(body, (str, bytes)):
                length = n
                h["Content-Length"] = str(n)
            else:
                h["Transfer-Encoding"] = "chunked"
        elif method.upper() not in ("GET", "HEAD"):
            h["Content-Length"] = "0"
        a = auth if auth is not None else self.auth
        if a:
            if isinstance(a, tuple) and len(a) == 2:
                a = HTTPBasicAuth(*a)
            class Prepared(object):
                pass
            r = Prepared()
            r.headers = h
            a(r)
        v = self.verify if verify is None else verify
        history = []
        method = method.upper()
        while True:
            res = self._send(method, full, h, body, length, v)
            res.history = list(history)
            if not (allow_redirects and res.is_redirect):
                break
            if len(history) >= self.max_redirects:
                raise TooManyRedirects("Exceeded %s redirects." % self.max_redirects)
            history.append(res)
            res.content
            to = _requote(urljoin(full, res.headers["location"]))
            if urlsplit(to).hostname != urlsplit(full).hostname:
                h.pop("Authorization", None)
            if res.status_code not in (307, 308):
                method = "GET" if method != "HEAD" else method
                body = length = None
                for k in ("Content-Length", "Content-Type", "Transfer-Encoding"):
                    h.pop(k, None)
            elif start is not None:
                body.seek(start)
            full = to
        if not stream:
            res.content
        return res

    def _send(self, method, url, headers, body, length, verify):
        s = urlsplit(url)

        def blocks():
            if body is None:
                return
            if isinstance(body, str):
                yield body.encode("iso-8859-1")
            elif isinstance(body, bytes):
                yield body
            elif length is not None and hasattr(body, "read"):
                while True:
                    b = body.read(8192)
                    if not b:
                        return
                    yield b.encode("iso-8859-1") if isinstance(b, str) else b
            else:
                for b in body:
                    yield b
        try:
            a = simnet.cur[0].request(method, s.scheme, s.netloc, unquote_to_bytes(s.path).decode("utf-8", "replace"), s.query, dict(headers), blocks(), length, verify)
        except simnet.BadCert as e:
            raise SSLError(str(e))
        except simnet.Broken as e:
            raise ConnectionError(str(e))
        except OSError as e:  # reading the body: urllib3 cannot tell it from the connection's
            raise ConnectionError(str(e))
        r = Response()
        r.status_code, r.reason, r.url = a.status, a.reason, url
        r.headers = CaseInsensitiveDict(a.headers)
        end = None
        if a.broken:
            end = ChunkedEncodingError("Connection broken: %s" % a.broken)
        r.raw = _RawBody(r.headers, a.wire, a.framing, end)
        return r

    def get(self, url, **k):
        return self.request("GET", url, **k)

    def options(self, url, **k):
        return self.request("OPTIONS", url, **k)

    def head(self, url, **k):
        k.setdefault("allow_redirects", False)
        return self.request("HEAD", url, **k)

    def post(self, url, data=None, json=None, **k):
        return self.request("POST", url, data=data, json=json, **k)

    def put(self, url, data=None, **k):
        return self.request("PUT", url, data=data, **k)

    def patch(self, url, data=None, **k):
        return self.request("PATCH", url, data=data, **k)

    def delete(self, url, **k):
        return self.request("DELETE", url, **k)


def session():
    return Session()


def request(method, url, **k):
    with Session() as s:
        return s.request(method, url, **k)


def get(url, params=None, **k):
    return request("GET", url, params=params, **k)


def options(url, **k):
    return request("OPTIONS", url, **k)


def head(url, **k):
    k.setdefault("allow_redirects", False)
    return request("HEAD", url, **k)


def post(url, data=None, json=None, **k):
    return request("POST", url, data=data, json=json, **k)


def put(url, data=None, **k):
    return request("PUT", url, data=data, **k)


def patch(url, data=None, **k):
    return request("PATCH", url, data=data, **k)


def delete(url, **k):
    return request("DELETE", url, **k)
