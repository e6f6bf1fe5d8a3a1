"""The simulated disk for the Python parts: every path below ROOT lives in
memory, outlives simulated processes, and each operation may be faulted."""
import builtins
import bz2
import errno
import io
import os
import stat as statmod
import tempfile

ROOT = "/vsim"


class SimCrash(BaseException):
    """The simulated process is killed."""


class FS(object):
    def __init__(self, rng=None):
        self.files = {}      # path -> bytearray
        self.dirs = {ROOT, ROOT + "/tmp"}
        self.rng = rng
        self.fired = {}
        self.cur = None
        self.cwd = None      # where relative names are looked up, if here
        self.start()

    def start(self, faults=(), split=None, cap=0):
        """A new simulated process. faults: list of [op, kind, arg]."""
        if self.cur:
            self.cur.dead = True
        self.cur = Proc(self, faults, split, cap)
        return self.cur

    def used(self):
        return sum(len(b) for b in self.files.values())

    def count(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1


class Proc(object):
    def __init__(self, fs, faults, split, cap):
        self.fs = fs
        self.dead = False
        self.n = 0
        self.faults = {}
        for op, kind, arg in faults:
            self.faults.setdefault(op, []).append((kind, arg))
        self.split = split
        self.cap = cap
        self.trace = []
        self.tmp = 0
        self.failed = False

    def crash(self):
        self.dead = True
        raise SimCrash()

    def op(self, name, path, size=0):
        """Counts an operation; returns the faults that change its size."""
        if self.dead:
            raise SimCrash()
        self.n += 1
        self.trace.append((self.n, name, path, size))
        late = []
        for kind, arg in self.faults.get(self.n, ()):
            if kind == "crash-before":
                self.fs.count(kind)
                self.crash()
            if kind == "error":
                self.fs.count(kind)
                self.failed = True
                raise OSError(errno.EIO, "Input/output error", path)
            late.append((kind, arg))
        return late

    def after(self, late):
        for kind, _ in late:
            if kind == "crash-after":
                self.fs.count(kind)
                self.crash()


class Raw(io.RawIOBase):
    def __init__(self, fs, path, mode):
        self._p = fs.cur
        self._fs = fs
        self.name = path
        self.mode = mode
        late = self._p.op("open", path)
        c = mode.replace("b", "").replace("t", "")
        base = c.replace("+", "")
        d = os.path.dirname(path)
        if d not in fs.dirs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if path in fs.dirs:
            raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
        if base == "r":
            if path not in fs.files:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        elif base == "x" and path in fs.files:
            raise FileExistsError(errno.EEXIST, "File exists", path)
        elif base in "wx":
            del fs.files.setdefault(path, bytearray())[:]  # the same file for whoever has it open
        elif base == "a":
            fs.files.setdefault(path, bytearray())
        self._b = fs.files[path]
        self._r = base == "r" or "+" in c
        self._w = base != "r" or "+" in c
        self._a = base == "a"
        self._pos = len(self._b) if self._a else 0
        self._err = 0
        self._p.after(late)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False

    def tell(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._pos

    def seek(self, off, whence=0):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        n = off + (0, self._pos, len(self._b))[whence]
        if n < 0:
            raise OSError(errno.EINVAL, "Invalid argument")
        self._pos = n
        return n

    def truncate(self, size=None):
        late = self._p.op("truncate", self.name)
        size = self._pos if size is None else size
        if size < len(self._b):
            del self._b[size:]
        else:
            self._b.extend(bytes(size - len(self._b)))
        self._p.after(late)
        return size

    def readinto(self, buf):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if not self._r:
            raise io.UnsupportedOperation("read")
        p = self._p
        late = p.op("read", self.name, len(buf))
        n = min(len(buf), max(0, len(self._b) - self._pos))
        if p.split is not None and n > 1 and p.split.random() < 0.7:
            n = p.split.randint(1, n) if p.split.random() < 0.7 else p.split.randint(1, min(n, 16))
            self._fs.count("short-read")
        buf[:n] = self._b[self._pos:self._pos + n]
        self._pos += n
        p.after(late)
        return n

    def write(self, data):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if not self._w:
            raise io.UnsupportedOperation("write")
        data = bytes(data)
        p = self._p
        late = p.op("write", self.name, len(data))
        n, err = len(data), 0
        if self._err:  # what a short write announced
            err, self._err = self._err, 0
            n = 0
        for kind, arg in late:
            if kind in ("enospc", "shortwrite"):
                n = min(arg, n)
                err = errno.ENOSPC if kind == "enospc" else errno.EIO
                self._fs.count(kind)
            if kind == "crash-inside":
                self._put(data[:min(arg, n)])
                self._fs.count(kind)
                p.crash()
        if not err and p.cap:
            room = p.cap - self._fs.used()
            if room < n:
                n, err = max(0, room), errno.ENOSPC
                self._fs.count("disk-full")
        if err:
            p.failed = True
            if n == 0:
                raise OSError(err, os.strerror(err), self.name)
            self._put(data[:n])
            self._err = err
            p.after(late)
            return n
        if p.split is not None and n > 1 and p.split.random() < 0.3:
            n = p.split.randint(1, n)  # legal: the caller writes the rest
            self._fs.count("partial-write")
        self._put(data[:n])
        p.after(late)
        return n

    def _put(self, d):
        if self._a:
            self._pos = len(self._b)
        if self._pos > len(self._b):
            self._b.extend(bytes(self._pos - len(self._b)))
        self._b[self._pos:self._pos + len(d)] = d
        self._pos += len(d)

    def close(self):
        if not self.closed:
            super().close()
            if not self._p.dead:
                self._p.after(self._p.op("close", self.name))


class _Tmp(io.BufferedRandom):
    """tempfile objects: gone once closed."""

    def close(self):
        path, fs = self.raw.name, self.raw._fs
        gone = self.closed
        super().close()
        if not gone:
            fs.files.pop(path, None)

    def __enter__(self):
        return self

    @property
    def file(self):
        return self


cur = [None]  # the FS of the running scenario
_real = {}


def mine(p):
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = p.decode("utf-8", "surrogateescape")
    if not isinstance(p, str) or cur[0] is None:
        return None
    if p[:1] != "/" and cur[0].cwd:
        p = os.path.join(cur[0].cwd, p)
    if p == ROOT or p.startswith(ROOT + "/"):
        return os.path.normpath(p)
    return None


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = mine(file) if not isinstance(file, int) else None
    if p is None:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw = Raw(cur[0], p, mode)
    text = "b" not in mode
    if buffering == 0 and not text:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif raw.writable():
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if not text:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
    t.mode = mode
    return t


def _tmpfile(mode="w+b", *a, **k):
    fs = cur[0]
    if fs is None:
        return _real["TemporaryFile"](mode, *a, **k)
    fs.cur.tmp += 1
    raw = Raw(fs, "%s/tmp/tmp%d%s" % (ROOT, fs.cur.tmp, k.get("suffix") or ""), mode)
    if "b" in mode:
        return _Tmp(raw)
    return io.TextIOWrapper(_Tmp(raw), "utf-8")


def _wrap(mod, name, fn):
    _real[name] = getattr(mod, name)

    def w(path=".", *a, **k):
        p = mine(path)
        if p is None:
            return _real[name](path, *a, **k)
        return fn(cur[0], p, *a, **k)
    setattr(mod, name, w)


def _stat(fs, p, **k):
    if p in fs.files:
        return os.stat_result((statmod.S_IFREG | 0o644, 1, 1, 1, 0, 0, len(fs.files[p]), 0, 0, 0))
    if p in fs.dirs:
        return os.stat_result((statmod.S_IFDIR | 0o755, 1, 1, 1, 0, 0, 0, 0, 0, 0))
    raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)


def _mkdir(fs, p, *a, **k):
    if p in fs.dirs or p in fs.files:
        raise FileExistsError(errno.EEXIST, "File exists", p)
    if os.path.dirname(p) not in fs.dirs:
        raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
    late = fs.cur.op("mkdir", p)
    fs.dirs.add(p)
    fs.cur.after(late)


def _remove(fs, p, **k):
    late = fs.cur.op("remove", p)
    if p not in fs.files:
        raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
    del fs.files[p]
    fs.cur.after(late)


def _rename(fs, p, q, **k):
    late = fs.cur.op("rename", p)
    if p not in fs.files:
        raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
    q = mine(q)
    if q is None or os.path.dirname(q) not in fs.dirs:
        raise FileNotFoundError(errno.ENOENT, "No such file or directory", q)
    fs.files[q] = fs.files.pop(p)
    fs.cur.after(late)


def _listdir(fs, p="."):
    if p not in fs.dirs:
        raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
    return sorted({x[len(p) + 1:].split("/")[0] for x in list(fs.files) + list(fs.dirs) if x.startswith(p + "/")})


class _Entry(object):
    def __init__(self, shown, p):
        self.name, self.path, self.p = os.path.basename(p), os.path.join(shown, os.path.basename(p)), p

    def __fspath__(self):
        return self.path

    def stat(self, **k):
        return _stat(cur[0], self.p)

    def is_file(self, **k):
        return self.p in cur[0].files

    def is_dir(self, **k):
        return self.p in cur[0].dirs

    def is_symlink(self):
        return False


class _Scan(list):
    def __enter__(self):
        return iter(self)

    def __exit__(self, *a):
        pass

    def __iter__(self):
        if not hasattr(self, "it"):
            self.it = list.__iter__(self)
        return self.it

    def __next__(self):
        return next(iter(self))

    def close(self):
        pass


def _scandir(path="."):
    p = mine(path)
    if p is None:
        return _real["scandir"](path)
    return _Scan(_Entry(os.fspath(path), p + "/" + n) for n in _listdir(cur[0], p))


def _rmdir(fs, p, **k):
    late = fs.cur.op("rmdir", p)
    if p not in fs.dirs:
        raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
    if _listdir(fs, p):
        raise OSError(errno.ENOTEMPTY, "Directory not empty", p)
    fs.dirs.discard(p)
    fs.cur.after(late)


def _access(fs, p, mode, **k):
    return p in fs.files or p in fs.dirs


def _getcwd():
    fs = cur[0]
    return fs.cwd if fs is not None and fs.cwd else _real["getcwd"]()


def install():
    _real["open"] = builtins.open
    builtins.open = io.open = sim_open
    bz2._builtin_open = sim_open
    for n, f in (("stat", _stat), ("lstat", _stat), ("mkdir", _mkdir), ("remove", _remove), ("unlink", _remove),
                 ("rename", _rename), ("replace", _rename), ("listdir", _listdir), ("rmdir", _rmdir), ("access", _access)):
        _wrap(os, n, f)
    _real["scandir"], os.scandir = os.scandir, _scandir
    _real["getcwd"], os.getcwd = os.getcwd, _getcwd
    # C implementations of these do not go through os.stat
    import genericpath
    import posixpath

    def has(kind):
        def f(path):
            try:
                m = os.stat(path).st_mode
            except (OSError, ValueError):
                return False
            return kind(m)
        return f
    for m in (genericpath, posixpath):
        m.isfile, m.isdir, m.exists = has(statmod.S_ISREG), has(statmod.S_ISDIR), has(lambda m: True)
    _real["TemporaryFile"] = tempfile.TemporaryFile
    tempfile.TemporaryFile = tempfile.NamedTemporaryFile = tempfile.SpooledTemporaryFile = _tmpfile
