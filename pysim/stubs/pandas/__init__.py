"""A small stand-in: the tables the converter uses. Columns have the types
pandas reads (int64, float64, bool, object, datetime64[ns]); rows have labels,
and what is assigned is lined up by them."""
import bz2
import csv
import datetime
import gzip
import io
import random
import re

import numpy as np


class StringDtype(object):
    pass


class CategoricalDtype(object):
    pass


class DType(object):
    def __init__(self, name):
        self.name = name

    @property
    def kind(self):
        return {"int64": "i", "float64": "f", "bool": "b", "object": "O"}.get(self.name, "M")

    @property
    def type(self):
        return {"int64": np.int64, "float64": np.float64, "bool": bool, "object": object}.get(self.name)

    def __eq__(self, o):
        # any class numpy does not know stands for object
        try:
            return _dtype(o).name == self.name
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __str__(self):
        return self.name

    __repr__ = __str__


def _dtype(t):
    if isinstance(t, DType):
        return t
    if isinstance(t, str):
        n = {"int": "int64", "int32": "int64", "i8": "int64", "float": "float64", "O": "object", "str": "object", "string": "object", "M8[ns]": "datetime64[ns]"}.get(t, t)
        if n not in ("int64", "float64", "bool", "object", "datetime64[ns]", "category"):
            raise TypeError("data type %r not understood" % t)
        return DType(n)
    if t in (int, np.int64):
        return DType("int64")
    if t in (float, np.float64):
        return DType("float64")
    if t is bool:
        return DType("bool")
    if isinstance(t, type):
        return DType("object")
    raise TypeError("data type not understood")


def _missing(v):
    return v is None or isinstance(v, float) and v != v


def _guess(vs):
    if not vs:
        return DType("object")
    if all(isinstance(v, bool) for v in vs):
        return DType("bool")
    if all(isinstance(v, int) and not isinstance(v, bool) for v in vs):
        return DType("int64")
    if all(isinstance(v, (int, float)) and not isinstance(v, bool) or v is None for v in vs) and any(isinstance(v, (int, float)) for v in vs):
        return DType("float64")
    if all(isinstance(v, datetime.datetime) for v in vs):
        return DType("datetime64[ns]")
    return DType("object")


def _cast(vs, t):
    if t.name == "int64":
        if any(_missing(v) for v in vs):
            raise ValueError("Cannot convert non-finite values (NA or inf) to integer")
        return [int(v) for v in vs]
    if t.name == "float64":
        return [np.nan if v is None else float(v) for v in vs]
    if t.name == "bool":
        return [bool(v) for v in vs]
    return list(vs)


class Index(list):
    def tolist(self):
        return list(self)

    to_list = tolist

    def get_loc(self, k):
        return self.index(k)

    @property
    def values(self):
        return np.array(self)

    to_numpy = lambda self: np.array(self)

    @property
    def is_unique(self):
        return len(set(self)) == len(self)


class _Str(object):
    def __init__(self, s):
        self.s = s

    def _map(self, f, name=None):
        return Series([v if _missing(v) else f(v) for v in self.s._v], self.s.index, self.s.name)

    def contains(self, pat, case=True, flags=0, na=None, regex=True):
        r = re.compile(pat if regex else re.escape(pat), flags | (0 if case else re.I))
        return self._map(lambda v: r.search(v) is not None)

    def match(self, pat, case=True, flags=0, na=None):
        r = re.compile(pat, flags | (0 if case else re.I))
        return self._map(lambda v: r.match(v) is not None)

    def replace(self, pat, repl, n=-1, case=None, flags=0, regex=False):
        return self._map((lambda v: re.sub(pat, repl, v)) if regex else (lambda v: v.replace(pat, repl)))

    def split(self, pat=None, n=-1, expand=False, **k):
        if expand:
            rows = [v.split(pat, n if n and n > 0 else -1) for v in self.s._v]
            w = max([len(x) for x in rows] or [0])
            return DataFrame({i: [x[i] if i < len(x) else None for x in rows] for i in range(w)}, self.s.index)
        return self._map(lambda v: v.split(pat, n if n and n > 0 else -1))

    def get(self, i):
        return self._map(lambda v: v[i] if -len(v) <= i < len(v) else np.nan)

    def __getitem__(self, i):
        return self._map(lambda v: v[i]) if isinstance(i, slice) else self.get(i)

    def __getattr__(self, n):
        if n in ("lower", "upper", "strip", "startswith", "endswith", "len", "find", "title"):
            return lambda *a: self._map((lambda v: len(v)) if n == "len" else lambda v: getattr(v, n)(*a))
        raise AttributeError(n)


class Series(object):
    def __init__(self, data=(), index=None, name=None, dtype=None):
        if isinstance(data, Series):
            index, data = data.index if index is None else index, data._v
        elif isinstance(data, dict):
            index, data = list(data), list(data.values())
        self._v = list(data)
        self.index = Index(range(len(self._v)) if index is None else index)
        self.name = name
        self._t = _guess(self._v) if dtype is None else _dtype(dtype)
        if dtype is not None:
            self._v = _cast(self._v, self._t)

    @property
    def dtype(self):
        return self._t

    dtypes = dtype

    @property
    def str(self):
        if self._t.name != "object":
            raise AttributeError("Can only use .str accessor with string values!")
        return _Str(self)

    @property
    def values(self):
        return np.array(self._v)

    array = values

    @property
    def shape(self):
        return (len(self._v),)

    @property
    def size(self):
        return len(self._v)

    @property
    def empty(self):
        return not self._v

    @property
    def is_unique(self):
        return len(set(self._v)) == len(self._v)

    @property
    def hasnans(self):
        return any(_missing(v) for v in self._v)

    @property
    def iloc(self):
        return _At(lambda i: Series(self._v[i], self.index[i], self.name, self._t) if isinstance(i, slice) else self._v[i])

    @property
    def loc(self):
        return _At(lambda k: self[k] if isinstance(k, (Series, list)) else self._v[self.index.index(k)])

    def _like(self, vs, t=None):
        return Series(vs, self.index, self.name, t)

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(list(self._v))

    def __contains__(self, k):
        return k in self.index

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Series(self._v[k], self.index[k], self.name, self._t)
        if isinstance(k, (Series, list)):
            ks = list(k)
            if ks and not isinstance(ks[0], bool):
                return Series([self._v[self.index.index(x)] for x in ks], ks, self.name, self._t)
            keep = [i for i, b in enumerate(ks) if b]
            return Series([self._v[i] for i in keep], [self.index[i] for i in keep], self.name, self._t)
        return self._v[self.index.index(k)]

    def items(self):
        return zip(list(self.index), list(self._v))

    iteritems = items

    def keys(self):
        return self.index

    def to_dict(self):
        return dict(self.items())

    def tolist(self):
        return list(self._v)

    to_list = tolist

    def to_numpy(self, dtype=None, *a, **k):
        return np.array(self._v, dtype)

    def unique(self):
        return np.array(dict.fromkeys(self._v))

    def nunique(self, dropna=True):
        return len({v for v in self._v if not _missing(v)})

    def drop_duplicates(self, keep="first"):
        seen, at = set(), []
        for i, v in enumerate(self._v):
            if v not in seen:
                seen.add(v)
                at.append(i)
        return Series([self._v[i] for i in at], [self.index[i] for i in at], self.name, self._t)

    def map(self, f, na_action=None):
        if isinstance(f, dict):
            return self._like([f.get(v, np.nan) for v in self._v])
        if isinstance(f, Series):
            d = f.to_dict()
            return self._like([d.get(v, np.nan) for v in self._v])
        return self._like([f(v) for v in self._v])

    def apply(self, f, args=(), **k):
        return self._like([f(v, *args, **k) for v in self._v])

    def replace(self, a, b=None, inplace=False, **k):
        d = a if isinstance(a, dict) else dict(zip(a, b if isinstance(b, (list, tuple)) else [b] * len(a))) if isinstance(a, (list, tuple)) else {a: b}
        vs = [d.get(v, v) for v in self._v]
        if inplace:
            self._v, self._t = vs, _guess(vs)
            return None
        return self._like(vs)

    def astype(self, t, *a, **k):
        if t is str or t == "str":
            return self._like([str(v) for v in self._v], object)
        t = _dtype(t)
        return self._like(_cast(self._v, t), t)

    def isna(self):
        return self._like([_missing(v) for v in self._v], bool)

    isnull = isna

    def notna(self):
        return self._like([not _missing(v) for v in self._v], bool)

    notnull = notna

    def isin(self, xs):
        xs = set(xs)
        return self._like([v in xs for v in self._v], bool)

    def any(self):
        return any(self._v)

    def all(self):
        return all(self._v)

    def sum(self):
        return sum(self._v)

    def max(self):
        return max(self._v)

    def min(self):
        return min(self._v)

    def copy(self, deep=True):
        return self._like(self._v, self._t)

    def reset_index(self, drop=False, **k):
        return Series(self._v, None, self.name, self._t)

    def factorize(self, sort=False):
        u = sorted(set(self._v)) if sort else list(dict.fromkeys(self._v))
        at = {v: i for i, v in enumerate(u)}
        return np.array([at[v] for v in self._v]), Index(u)

    def _cmp(self, o, f):
        if isinstance(o, (Series, list)):
            return self._like([f(a, b) for a, b in zip(self._v, list(o))])
        return self._like([f(a, o) for a in self._v])

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __and__(self, o):
        return self._cmp(o, lambda a, b: a and b)

    def __or__(self, o):
        return self._cmp(o, lambda a, b: a or b)

    def __add__(self, o):
        return self._cmp(o, lambda a, b: a + b)

    def __invert__(self):
        return self._like([not v for v in self._v])

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous.")

    __hash__ = None


class _At(object):
    def __init__(self, get, put=None):
        self.get, self.put = get, put

    def __getitem__(self, k):
        return self.get(k)

    def __setitem__(self, k, v):
        if self.put is None:
            raise NotImplementedError
        self.put(k, v)


class DataFrame(object):
    def __init__(self, data=None, index=None, columns=None):
        d = {}
        if isinstance(data, DataFrame):
            index = data.index if index is None else index
            data = data._c
        if isinstance(data, list) and data and isinstance(data[0], dict):
            data = {k: [x.get(k, np.nan) for x in data] for k in dict.fromkeys(k for x in data for k in x)}
        elif isinstance(data, list):
            data = {c: [x[i] for x in data] for i, c in enumerate(columns or [])}
        for k, v in (data or {}).items():
            if columns is None or k in columns:
                d[k] = v
        n = max([len(v) for v in d.values()] or [0])
        self.__dict__["_i"] = Index(range(n) if index is None else index)
        self.__dict__["_c"] = {k: Series(v, self._i, k, v.dtype if isinstance(v, Series) else None) for k, v in d.items()}

    @property
    def columns(self):
        return Index(self._c)

    @property
    def index(self):
        return self._i

    @property
    def dtypes(self):
        return Series([s.dtype for s in self._c.values()], list(self._c), None, object)

    @property
    def shape(self):
        return (len(self._i), len(self._c))

    @property
    def empty(self):
        return not self._i or not self._c

    def __len__(self):
        return len(self._i)

    def __iter__(self):
        return iter(list(self._c))

    def __contains__(self, k):
        return k in self._c

    def keys(self):
        return self.columns

    def items(self):
        return [(k, self[k]) for k in self._c]

    iteritems = items

    def _rows(self, at):
        out = DataFrame()
        out.__dict__["_i"] = Index(self._i[i] for i in at)
        out.__dict__["_c"] = {k: Series([s._v[i] for i in at], out._i, k, s.dtype) for k, s in self._c.items()}
        return out

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._rows(range(len(self))[k])
        if isinstance(k, (Series, np.ndarray)) or isinstance(k, list) and k and isinstance(k[0], bool):
            if isinstance(k, Series) and k.dtype != bool and len(k):
                if k.dtype == object and any(_missing(v) for v in k):
                    raise ValueError("Cannot mask with non-boolean array containing NA / NaN values")
                return self[list(k)]
            return self._rows([i for i, b in enumerate(k) if b])
        if isinstance(k, list):
            out = DataFrame()
            out.__dict__["_i"] = self._i
            out.__dict__["_c"] = {x: self._c[x].copy() for x in k}
            return out
        return self._c[k]

    def get(self, k, default=None):
        return self._c.get(k, default)

    def __setitem__(self, k, v):
        if isinstance(v, Series):
            if list(v.index) != list(self._i) and self._c:
                at = dict(v.items())
                v = Series([at.get(i, np.nan) for i in self._i], self._i, k)
            else:
                if not self._c:
                    self.__dict__["_i"] = Index(v.index)
                v = Series(v._v, self._i, k, v.dtype)
        else:
            if isinstance(v, str) or not hasattr(v, "__iter__"):
                v = [v] * len(self._i)
            v = list(v)
            if not self._c and not self._i:
                self.__dict__["_i"] = Index(range(len(v)))
            if len(v) != len(self._i):
                raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(v), len(self._i)))
            v = Series(v, self._i, k)
        self._c[k] = v

    def __delitem__(self, k):
        del self._c[k]

    def __getattr__(self, k):
        c = self.__dict__.get("_c", {})
        if k in c:
            return c[k]
        raise AttributeError("'DataFrame' object has no attribute %r" % k)

    def __setattr__(self, k, v):
        if k in self._c:
            self[k] = v
        elif k == "columns":
            vs = list(self._c.values())
            self.__dict__["_c"] = {n: Series(s._v, self._i, n, s.dtype) for n, s in zip(v, vs)}
        elif k == "index":
            self.__dict__["_i"] = Index(v)
            for s in self._c.values():
                s.index = self._i
        else:
            self.__dict__[k] = v

    @property
    def loc(self):
        def get(k):
            r, c = k if isinstance(k, tuple) else (k, None)
            d = self
            if isinstance(r, (Series, list, np.ndarray)):
                d = self[r] if r and isinstance(list(r)[0], bool) or not len(r) else self._rows([self._i.index(x) for x in r])
            elif not (isinstance(r, slice) and r == slice(None)):
                d = self._rows([self._i.index(r)])
            return d if c is None else d[c]

        def put(k, v):
            r, c = k
            if isinstance(r, slice) and r == slice(None):
                self[c] = v
                return
            old = self._c[c]._v if c in self._c else [np.nan] * len(self)
            at = [i for i, b in enumerate(r) if b] if hasattr(r, "__iter__") else [self._i.index(r)]
            vs = dict(v.items()) if isinstance(v, Series) else None
            new = list(old)
            it = iter(v) if hasattr(v, "__iter__") and not isinstance(v, str) and vs is None else None
            for i in at:
                new[i] = vs[self._i[i]] if vs is not None else next(it) if it is not None else v
            self[c] = new
        return _At(get, put)

    @property
    def iloc(self):
        def get(k):
            if isinstance(k, slice):
                return self._rows(range(len(self))[k])
            if isinstance(k, list):
                return self._rows(k)
            return Series([s._v[k] for s in self._c.values()], list(self._c), None, object)
        return _At(get)

    def copy(self, deep=True):
        return self._rows(range(len(self)))

    def head(self, n=5):
        return self._rows(range(len(self))[:n])

    def sample(self, n=None, frac=None, random_state=None, **k):
        at = list(range(len(self)))
        (random.Random(random_state) if random_state is not None else chance[0]).shuffle(at)
        return self._rows(at[:n if n is not None else int(round(len(at) * (1 if frac is None else frac)))])

    def reset_index(self, drop=False, inplace=False, **k):
        out = self if inplace else self.copy()
        old = list(out._i)
        out.index = range(len(out))
        if not drop:
            c = {"index": Series(old, out._i, "index")}
            c.update(out._c)
            out.__dict__["_c"] = c
        return None if inplace else out

    def assign(self, **k):
        out = self.copy()
        for c, v in k.items():
            out[c] = v(out) if callable(v) else v
        return out

    def drop(self, labels=None, axis=0, columns=None, inplace=False, **k):
        cs = columns if columns is not None else labels
        cs = [cs] if isinstance(cs, str) else list(cs)
        out = self if inplace else self.copy()
        for c in cs:
            del out._c[c]
        return None if inplace else out

    def rename(self, columns=None, inplace=False, **k):
        out = self if inplace else self.copy()
        out.columns = [columns.get(c, c) for c in out._c]
        return None if inplace else out

    def select_dtypes(self, include=None, exclude=None):
        def has(t, xs):
            return any(t == x for x in (xs if isinstance(xs, (list, tuple)) else [xs]))
        return self[[c for c, s in self._c.items() if (include is None or has(s.dtype, include)) and (exclude is None or not has(s.dtype, exclude))]]

    def apply(self, f, axis=0, **k):
        if axis in (1, "columns"):
            return Series([f(self.iloc[i]) for i in range(len(self))], self._i)
        return DataFrame({c: f(s) for c, s in self._c.items()}, self._i)

    def sort_values(self, by, ascending=True, inplace=False, kind=None, **k):
        by = [by] if isinstance(by, str) else by
        at = sorted(range(len(self)), key=lambda i: [self._c[b]._v[i] for b in by], reverse=not ascending)
        out = self._rows(at)
        if inplace:
            self.__dict__.update(out.__dict__)
            return None
        return out

    def drop_duplicates(self, subset=None, **k):
        seen, at = set(), []
        cs = list(self._c) if subset is None else [subset] if isinstance(subset, str) else subset
        for i in range(len(self)):
            v = tuple(self._c[c]._v[i] for c in cs)
            if v not in seen:
                seen.add(v)
                at.append(i)
        return self._rows(at)

    def dropna(self, **k):
        return self._rows([i for i in range(len(self)) if not any(_missing(s._v[i]) for s in self._c.values())])

    def isna(self):
        return DataFrame({c: s.isna() for c, s in self._c.items()}, self._i)

    def itertuples(self, index=True, name="Pandas"):
        import collections
        T = collections.namedtuple("Pandas", (["Index"] if index else []) + list(self._c), rename=True)
        for i, l in enumerate(self._i):
            yield T(*(([l] if index else []) + [s._v[i] for s in self._c.values()]))

    def iterrows(self):
        for i, l in enumerate(self._i):
            yield l, self.iloc[i]

    def to_dict(self, orient="dict"):
        if orient == "list":
            return {c: list(s._v) for c, s in self._c.items()}
        if orient == "records":
            return [{c: s._v[i] for c, s in self._c.items()} for i in range(len(self))]
        return {c: dict(s.items()) for c, s in self._c.items()}

    def to_csv(self, path_or_buf=None, sep=",", index=True, header=True, mode="w", encoding=None, compression="infer", columns=None, chunksize=None, quoting=0, lineterminator="\n", **k):
        f, mine = path_or_buf, False
        if path_or_buf is None:
            f = io.StringIO()
        elif not hasattr(path_or_buf, "write"):
            f, mine = _open(path_or_buf, mode, compression), True
        try:
            if hasattr(f, "mode") and "b" in str(f.mode) or isinstance(f, (gzip.GzipFile, io.BytesIO)):
                f = io.TextIOWrapper(f, "utf-8", newline="")
            cs = list(self._c) if columns is None else list(columns)
            dates = {c for c in cs if self._c[c].dtype == "datetime64[ns]" and all(v.time() == datetime.time(0) for v in self._c[c])}
            w = csv.writer(f, delimiter=sep, lineterminator=lineterminator, quoting=quoting)
            if header:
                w.writerow(([""] if index else []) + cs)
            for i, l in enumerate(self._i):
                w.writerow(([l] if index else []) + [_shown(self._c[c]._v[i], c in dates) for c in cs])
            if isinstance(f, io.TextIOWrapper) and not mine:
                f.flush()
                f.detach()
            elif not mine and hasattr(f, "flush"):
                f.flush()
        finally:
            if mine:
                f.close()
        return f.getvalue() if path_or_buf is None else None


def _shown(v, date):
    if _missing(v):
        return ""
    if isinstance(v, datetime.datetime):
        return v.strftime("%Y-%m-%d" if date else "%Y-%m-%d %H:%M:%S")
    if isinstance(v, float):
        return repr(v)
    return v


def _open(path, mode, compression):
    import os
    p = os.fspath(path)
    if isinstance(compression, dict):
        compression = compression.get("method", "infer")
    if compression == "infer":
        compression = "gzip" if p.endswith(".gz") else "bz2" if p.endswith(".bz2") else None
    if compression == "gzip":
        f = gzip.GzipFile(path, mode + "b")
    elif compression == "bz2":
        f = bz2.BZ2File(path, mode + "b")
    elif compression is None:
        return open(path, mode, encoding="utf-8", newline="")
    else:
        raise ValueError("Unrecognized compression type: %s" % compression)
    return io.TextIOWrapper(f, "utf-8", newline="")


chance = [random]  # what is drawn from without a seed


NA = {"", "#N/A", "#N/A N/A", "#NA", "-1.#IND", "-1.#QNAN", "-NaN", "-nan", "1.#IND", "1.#QNAN", "<NA>", "N/A", "NA", "NULL", "NaN", "n/a", "nan", "null", "None"}
_INT = re.compile(r"\s*[+-]?\d+\s*$")
_FLOAT = re.compile(r"\s*[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|inf|Inf|INF|infinity)\s*$")


def _column(vs):
    na = [v in NA for v in vs]
    if vs and not any(na) and all(_INT.match(v) for v in vs):
        return Series([int(v) for v in vs], dtype="int64")
    if vs and all(n or _FLOAT.match(v) for v, n in zip(vs, na)):
        return Series([np.nan if n else float(v) for v, n in zip(vs, na)], dtype="float64")
    if vs and all(v in ("True", "TRUE", "true", "False", "FALSE", "false") for v in vs):
        return Series([v.lower() == "true" for v in vs], dtype="bool")
    return Series([np.nan if n else v for v, n in zip(vs, na)], dtype="object")


def read_csv(filepath_or_buffer, sep=",", index_col=None, compression="infer", usecols=None, dtype=None, **k):
    f, mine = filepath_or_buffer, False
    if not hasattr(f, "read"):
        f, mine = _open(f, "r", compression), True
    try:
        b = f.read()
    finally:
        if mine:
            f.close()
    if isinstance(b, bytes):
        b = b.decode("utf-8")
    rows = [r for r in csv.reader(io.StringIO(b, newline=""), delimiter=sep) if r]
    if not rows:
        raise errors.EmptyDataError("No columns to parse from file")
    head, rows = rows[0], rows[1:]
    for r in rows:
        if len(r) > len(head):
            raise errors.ParserError("Error tokenizing data. C error: Expected %d fields, saw %d" % (len(head), len(r)))
    d = DataFrame()
    d.__dict__["_i"] = Index(range(len(rows)))
    for j, c in enumerate(head):
        if usecols is None or c in usecols:
            s = _column([r[j] if j < len(r) else "" for r in rows])
            t = dtype.get(c) if isinstance(dtype, dict) else dtype
            if t is not None:
                s = Series([r[j] for r in rows] if _dtype(t) == object else s._v, None, c, t)
            d._c[c] = Series(s._v, d._i, c, s.dtype)
    return d


def to_datetime(x, unit=None, **k):
    def one(v):
        if isinstance(v, datetime.datetime):
            return v
        if isinstance(v, str):
            return datetime.datetime.fromisoformat(v)
        return datetime.datetime(1970, 1, 1) + datetime.timedelta(**{{"s": "seconds", "ms": "milliseconds", "D": "days", None: "microseconds"}[unit]: v})
    if isinstance(x, Series):
        return Series([one(v) for v in x], x.index, x.name, "datetime64[ns]")
    return one(x)


def concat(xs, axis=0, ignore_index=False, **k):
    xs = list(xs)
    if xs and isinstance(xs[0], Series):
        return Series([v for x in xs for v in x], None if ignore_index else [i for x in xs for i in x.index])
    cs = list(dict.fromkeys(c for x in xs for c in x))
    out = DataFrame()
    out.__dict__["_i"] = Index(i for x in xs for i in x.index)
    if ignore_index:
        out.__dict__["_i"] = Index(range(len(out._i)))
    for c in cs:
        out._c[c] = Series([v for x in xs for v in (x[c] if c in x else [np.nan] * len(x))], out._i, c)
    return out


def unique(x):
    return Series(x).unique()


def factorize(x, sort=False, **k):
    return Series(x).factorize(sort)


def isna(x):
    return x.isna() if isinstance(x, (Series, DataFrame)) else _missing(x)


isnull = isna


class _Types(object):
    @staticmethod
    def is_object_dtype(x):
        return getattr(x, "dtype", x) == object

    is_string_dtype = is_object_dtype

    @staticmethod
    def is_numeric_dtype(x):
        return getattr(x, "dtype", x).kind in "ifb"


class _Api(object):
    types = _Types


api = _Api


class errors(object):
    class EmptyDataError(ValueError):
        pass

    class ParserError(ValueError):
        pass
