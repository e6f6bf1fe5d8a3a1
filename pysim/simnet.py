"""The simulated network: HttpFS / WebHDFS and Elasticsearch servers as state
machines behind requests, each request of which may be faulted, and other
clients that act between two requests."""
import base64
import gzip
import json
import random
from urllib.parse import parse_qsl

cur = [None]  # the network of the running scenario


class Broken(Exception):
    """The connection broke."""


class BadCert(Exception):
    """The certificate does not verify."""


class Remote(Exception):
    """An error answer of HDFS."""

    def __init__(self, status, kind, text):
        Exception.__init__(self, text)
        self.status, self.kind = status, kind


class Tree(object):
    """HDFS: path -> bytes of a file, or None for a directory."""

    def __init__(self, nodes=None):
        self.nodes = dict(nodes or {"/": None})

    def copy(self):
        return Tree(self.nodes)

    @staticmethod
    def norm(p):
        return "/" + "/".join(x for x in p.split("/") if x)

    def parents(self, p):
        parts = p.split("/")[1:-1]
        for i in range(len(parts)):
            yield "/" + "/".join(parts[:i + 1])

    def under(self, p):
        return [x for x in self.nodes if x != p and x.startswith(p.rstrip("/") + "/")]

    def mkdirs(self, p):
        p = self.norm(p)
        for x in list(self.parents(p)) + [p]:
            if self.nodes.get(x) is not None:
                raise Remote(403, "FileAlreadyExistsException" if x == p else "ParentNotDirectoryException", "not a directory: %s" % x)
        for x in list(self.parents(p)) + [p]:
            self.nodes[x] = None
        return True

    def list(self, p):
        p = self.norm(p)
        if p not in self.nodes:
            raise Remote(404, "FileNotFoundException", "File %s does not exist." % p)
        if self.nodes[p] is not None:
            return [("FILE", "")]
        return [("DIRECTORY" if self.nodes[x] is None else "FILE", x.rsplit("/", 1)[1]) for x in sorted(self.under(p)) if x.rsplit("/", 1)[0] == p.rstrip("/")]

    def delete(self, p, recursive):
        p = self.norm(p)
        if p not in self.nodes or p == "/":
            return False
        if self.under(p) and not recursive:
            raise Remote(403, "PathIsNotEmptyDirectoryException", "`%s is non empty': Directory is not empty" % p)
        for x in self.under(p) + [p]:
            del self.nodes[x]
        return True

    def open(self, p):
        p = self.norm(p)
        if p not in self.nodes:
            raise Remote(404, "FileNotFoundException", "File does not exist: %s" % p)
        if self.nodes[p] is None:
            raise Remote(403, "FileNotFoundException", "Path is not a file: %s" % p)
        return self.nodes[p]

    def create(self, p, data, overwrite):
        p = self.norm(p)
        self.can_create(p, overwrite)
        for x in self.parents(p):
            self.nodes[x] = None
        self.nodes[p] = data

    def can_create(self, p, overwrite):
        for x in self.parents(p):
            if self.nodes.get(x) is not None:
                raise Remote(403, "ParentNotDirectoryException", "%s is not a directory" % x)
        if p in self.nodes:
            if self.nodes[p] is None:
                raise Remote(403, "FileAlreadyExistsException", "%s already exists as a directory" % p)
            if not overwrite:
                raise Remote(403, "FileAlreadyExistsException", "%s already exists" % p)


class Answer(object):
    reasons = {200: "OK", 201: "Created", 202: "Accepted", 204: "No Content", 307: "Temporary Redirect", 400: "Bad Request", 401: "Unauthorized", 403: "Forbidden",
               404: "Not Found", 406: "Not Acceptable", 429: "Too Many Requests", 500: "Internal Server Error", 502: "Bad Gateway", 503: "Service Unavailable", 504: "Gateway Time-out"}

    def __init__(self, status, body=b"", ctype="application/json", headers=()):
        self.status, self.body = status, body
        self.reason = self.reasons.get(status, "")
        self.headers = dict(headers)
        if ctype:
            self.headers["Content-Type"] = ctype
        self.broken = None
        self.framing = "length"
        self.wire = []


def js(status, x, **k):
    return Answer(status, json.dumps(x).encode(), **k)


class Net(object):
    def __init__(self, seed=0, mode="httpfs", framing="length", zip_=False, cred=None, es_cred=None, badcert=False):
        self.tree = Tree()
        self.docs = {}
        self.rng = random.Random("net%s" % seed)
        self.mode, self.framing, self.zip, self.cred, self.es_cred, self.badcert = mode, framing, zip_, cred, es_cred, badcert
        self.n = 0
        self.faults = {}
        self.others = {}
        self.log = []    # what was handled, with its effect
        self.trace = []  # (number, operation) of every request
        self.fired = {}
        self.happened = 0  # faults and acts of others

    def count(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1
        self.happened += 1

    def kill(self):
        from simfs import SimCrash
        raise SimCrash()

    def request(self, method, scheme, netloc, path, query, headers, blocks, length, verify):
        self.n += 1
        q = dict(parse_qsl(query, keep_blank_values=True))
        kind, arg = self.faults.get(self.n, (None, 0))
        self.trace.append((self.n, "%s %s%s" % (method, q.get("op", ""), " data" if length is not None and length or "transfer-encoding" in headers else "")))
        act = self.others.get(self.n)
        if act:
            self.count("other-client")
            try:
                getattr(self.tree, act[0])(*[a.encode() if i == 1 and act[0] == "create" else a for i, a in enumerate(act[1:])])
            except Remote:
                pass
        if self.badcert and scheme == "https":
            if verify:
                self.fired["bad-certificate"] = self.fired.get("bad-certificate", 0) + 1
                raise BadCert("certificate verify failed: self signed certificate")
        if kind == "refused":
            self.count(kind)
            raise Broken("Connection refused")
        if kind == "kill-before":
            self.count(kind)
            self.kill()
        body = b""
        try:
            for b in blocks:
                body += b
                if kind == "reset-before" and len(body) > arg % 20000:
                    break
        except OSError:
            self.happened += 1
            self.partial(method, netloc, path, q, headers, body)
            raise
        if kind == "reset-before":
            self.count(kind)
            self.partial(method, netloc, path, q, headers, body[:arg % (len(body) + 1)])
            raise Broken("Connection reset by peer")
        if length is not None:
            if len(body) < length:
                raise Broken("Remote end closed connection without response")
            body = body[:length]
        if kind in ("status", "html", "empty"):
            self.count(kind)
            code = (401, 403, 404, 500, 502, 503, 400)[arg % 7]
            if kind == "status":
                return self.wrap(js(code, {"RemoteException": {"exception": "E", "message": "m"}}), None, 0)
            return self.wrap(Answer(code, b"<html><body>%d</body></html>" % code if kind == "html" else b"", "text/html"), None, 0)
        if kind == "fake":  # an answer that is none: a proxy, a redirect
            code = (200, 202, 204, 307)[arg % 4]
            a = Answer(code, b"", None, {"Location": "http://elsewhere:1/"} if code == 307 else {})
            if "op" not in q and arg // 4 % 2:
                a = js((200, 202)[arg % 2], [{}, {"status": "ok"}, {"acknowledged": True}][arg // 8 % 3])
            if method == "PUT" and not (code == 200 and q.get("op") == "CREATE" and not body):
                self.count(kind)
                return self.wrap(a, None, 0)
        self.reject = arg if kind == "reject-items" else None
        a = self.handle(method, netloc, path, q, headers, body)
        if kind == "twice" and method != "GET":
            self.count(kind)
            a = self.handle(method, netloc, path, q, headers, body)
        if kind == "kill-after":
            self.count(kind)
            self.kill()
        if kind == "reset-after":
            self.count(kind)
            raise Broken("Connection reset by peer")
        if kind == "late-error":
            self.count(kind)
            return self.wrap(Answer((502, 504, 500, 503)[arg % 4], b"<html>Gateway</html>", "text/html"), None, 0)
        return self.wrap(a, kind if kind in ("cut", "cut-reset") else None, arg)

    def wrap(self, a, cut, arg):
        """The bytes on the wire."""
        body = a.body
        if a.status == 204:
            body = b""
        if self.zip and body and "Location" not in a.headers:
            body = gzip.compress(body, mtime=0)
            a.headers["Content-Encoding"] = "gzip"
        if self.framing == "chunked" and a.status == 200:
            a.framing = "chunked"
            a.headers["Transfer-Encoding"] = "chunked"
        else:
            a.headers["Content-Length"] = str(len(body))
        if cut and body:
            self.count("cut-response")
            body = body[:arg % len(body)]
            if cut == "cut-reset" or a.framing == "chunked":
                a.broken = "IncompleteRead"
        i = 0
        while i < len(body):
            n = self.rng.choice([1, 3, 7, 64, 1000]) if a.framing == "chunked" else len(body)
            a.wire.append(body[i:i + n])
            i += n
        return a

    def handle(self, method, netloc, path, q, headers, body):
        auth = headers.get("authorization")
        if path.startswith("/webhdfs/v1"):
            return self.hdfs(method, netloc, path[len("/webhdfs/v1"):] or "/", q, headers, body, auth)
        if netloc.startswith("es"):
            return self.es(method, path, q, headers, body, auth)
        return Answer(404, b"<html>Not found</html>", "text/html")

    def authed(self, auth, cred):
        return cred is None or auth == "Basic " + base64.b64encode(("%s:%s" % tuple(cred)).encode("latin1")).decode()

    def partial(self, method, netloc, path, q, headers, body):
        """A file upload that broke off may leave what arrived."""
        q = {k.lower(): v for k, v in q.items()}
        if q.get("op", "").upper() == "CREATE" and q.get("data", "").lower() == "true" and path.startswith("/webhdfs/v1") and self.authed(headers.get("authorization"), self.cred) \
                and self.rng.random() < 0.5:
            try:
                p = path[len("/webhdfs/v1"):]
                old = self.tree.nodes.get(Tree.norm(p))
                self.tree.create(p, body, q.get("overwrite", "true").lower() == "true")
                self.log.append(("CREATE", Tree.norm(p), q.get("user.name"), (body, old)))
                self.count("upload-left-incomplete")
            except Remote:
                pass

    def hdfs(self, method, netloc, path, q, headers, body, auth):
        datanode = netloc.startswith("dn")
        if not datanode and not self.authed(auth, self.cred):
            return Answer(401, b"<html>HTTP Status 401</html>", "text/html")
        q = {k.lower(): v for k, v in q.items()}
        op = q.get("op", "").upper()
        user = q.get("user.name")
        if not user:
            return js(401, {"RemoteException": {"exception": "SecurityException", "message": "no user"}})

        def flag(k, d):
            v = q.get(k)
            if v is None:
                return d
            if v.lower() not in ("true", "false"):
                raise Remote(400, "IllegalArgumentException", "Failed to parse %r to Boolean." % v)
            return v.lower() == "true"
        if {"MKDIRS": "PUT", "CREATE": "PUT", "LISTSTATUS": "GET", "OPEN": "GET", "DELETE": "DELETE"}.get(op) != method:
            return js(400, {"RemoteException": {"exception": "UnsupportedOperationException", "message": "%s %s" % (method, op)}})
        p = Tree.norm(path)
        t = self.tree
        try:
            if op == "MKDIRS":
                self.log.append((op, p, user, t.mkdirs(p)))
                return js(200, {"boolean": True})
            if op == "LISTSTATUS":
                ls = t.list(p)
                self.log.append((op, p, user, ls))
                return js(200, {"FileStatuses": {"FileStatus": [{"type": a, "pathSuffix": b, "length": 0, "owner": user, "permission": "755"} for a, b in ls]}})
            if op == "DELETE":
                r = flag("recursive", False)
                ok = t.delete(p, r)
                self.log.append((op, p, user, (ok, r)))
                return js(200, {"boolean": ok})
            to = "http://dn%d:50075/webhdfs/v1%s" % (self.rng.randrange(1, 4), "?".join((path_quote(path), "&".join("%s=%s" % (k, path_quote(v)) for k, v in q.items()))))
            if op == "OPEN":
                if self.mode == "webhdfs" and not datanode:
                    t.open(p)
                    return Answer(307, b"", None, {"Location": to})
                b = t.open(p)
                self.log.append((op, p, user, b))
                return Answer(200, b, "application/octet-stream")
            over = flag("overwrite", self.mode == "httpfs")
            if self.mode == "webhdfs" and not datanode:
                t.can_create(p, over)
                return Answer(307, b"", None, {"Location": to})
            if self.mode == "httpfs" and not flag("data", False):
                return Answer(307, b"", None, {"Location": "http://%s/webhdfs/v1%s?%s&data=true" % (netloc, path_quote(path), "&".join("%s=%s" % (k, path_quote(v)) for k, v in q.items()))})
            if self.mode == "httpfs" and headers.get("content-type", "").split(";")[0].strip().lower() != "application/octet-stream":
                return Answer(400, b"Data upload requests must have content-type set to 'application/octet-stream'", "text/plain")
            old = t.nodes.get(p)
            t.create(p, body, over)
            self.log.append((op, p, user, (body, old)))
            return Answer(201, b"", None, {"Location": "hdfs://nn:8020" + path_quote(path)})
        except Remote as e:
            return js(e.status, {"RemoteException": {"exception": e.kind, "javaClassName": "x." + e.kind, "message": str(e)}})

    def es(self, method, path, q, headers, body, auth):
        if not self.authed(auth, self.es_cred):
            return js(401, {"error": {"type": "security_exception"}, "status": 401})
        if headers.get("content-type", "").split(";")[0] not in ("application/json", "application/x-ndjson"):
            return js(406, {"error": "Content-Type header is not supported", "status": 406})
        base, _, last = path.rpartition("/")
        if method not in ("PUT", "POST"):
            return js(405, {"error": "Incorrect HTTP method", "status": 405})
        try:
            text = body.decode("utf-8")
            if last == "_bulk":
                if not text.strip():
                    return js(400, {"error": {"type": "parse_exception", "reason": "request body is required"}, "status": 400})
                if not text.endswith("\n"):
                    return js(400, {"error": {"reason": "The bulk request must be terminated by a newline [\\n]"}, "status": 400})
                lines = text.split("\n")[:-1]
                items = []
                i = 0
                while i < len(lines):
                    if not lines[i].strip():
                        i += 1
                        continue
                    a = json.loads(lines[i])
                    (verb, meta), = a.items()
                    doc = json.loads(lines[i + 1])
                    i += 2
                    if verb not in ("index", "create") or not isinstance(doc, dict):
                        raise ValueError("bad line")
                    id_ = meta.get("_id") or "auto%d" % len(self.docs)
                    k = (base, id_)
                    if verb == "create" and k in self.docs:
                        items.append({verb: {"_id": id_, "status": 409}})
                        continue
                    st = 200 if k in self.docs else 201
                    if self.reject is not None and (self.reject + len(items)) % 3 == 0:
                        self.count("reject-items")
                        items.append({verb: {"_id": id_, "status": 429, "error": {"type": "es_rejected_execution_exception"}}})
                        continue
                    self.docs[k] = doc
                    items.append({verb: {"_id": id_, "status": st}})
                return js(200, {"took": 1, "errors": any(list(x.values())[0]["status"] >= 300 for x in items), "items": items})
            if method == "POST" and not last:
                last = "auto%d" % len(self.docs)
            doc = json.loads(text)
            if not isinstance(doc, dict) or not last or last.startswith("_"):
                raise ValueError("no document")
            k = (base, last)
            st = 200 if k in self.docs else 201
            self.docs[k] = doc
            return js(st, {"_id": last, "result": "created" if st == 201 else "updated"})
        except (ValueError, IndexError, UnicodeDecodeError, AttributeError) as e:
            return js(400, {"error": {"type": "illegal_argument_exception", "reason": str(e)}, "status": 400})


def path_quote(p):
    from urllib.parse import quote
    return quote(p)


def install():
    pass
