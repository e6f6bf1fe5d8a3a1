"""A small stand-in: the arrays of one dimension the converter uses."""
nan = float("nan")
NaN = nan


class int64(int):
    pass


int32 = int_ = integer = int64


class float64(float):
    pass


float32 = floating = number = float64
object_ = object
bool_ = bool
str_ = str


class ndarray(list):
    """Values with arithmetic left out."""

    def tolist(self):
        return list(self)

    @property
    def size(self):
        return len(self)

    @property
    def shape(self):
        return (len(self),)

    def copy(self):
        return ndarray(self)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return ndarray(list.__getitem__(self, i))
        if isinstance(i, (list, tuple)):
            if i and isinstance(i[0], bool):
                return ndarray(v for v, k in zip(self, i) if k)
            return ndarray(list.__getitem__(self, k) for k in i)
        return list.__getitem__(self, i)

    def astype(self, t, *a, **k):
        import pandas
        return ndarray(pandas._cast(self, pandas._dtype(t)))

    def __eq__(self, o):
        if isinstance(o, (list, tuple)):
            return ndarray(a == b for a, b in zip(self, o))
        return ndarray(a == o for a in self)

    def __ne__(self, o):
        return ndarray(not x for x in self == o)

    __hash__ = None

    def any(self):
        return any(self)

    def all(self):
        return all(self)

    def max(self):
        return max(self)

    def min(self):
        return min(self)

    def __reduce__(self):
        return (ndarray, (list(self),))


def array(x, dtype=None, copy=True):
    a = ndarray(x)
    return a if dtype is None else a.astype(dtype)


asarray = array


def fromiter(x, dtype=None, count=-1):
    return array(list(x), dtype)


def empty(n, dtype=float64):
    return ndarray([0] * (n if isinstance(n, int) else n[0]))


zeros = empty


def arange(*a, **k):
    return ndarray(range(*a))


def concatenate(xs, axis=0):
    return ndarray(v for x in xs for v in x)


def array_split(a, n, axis=0):
    a = ndarray(a)
    if not isinstance(n, int):
        b = [0] + list(n) + [len(a)]
    else:
        q, r = divmod(len(a), n)
        b = [0]
        for i in range(n):
            b.append(b[-1] + q + (i < r))
    return [ndarray(list(a)[b[i]:b[i + 1]]) for i in range(len(b) - 1)]


def split(a, n, axis=0):
    if isinstance(n, int) and len(a) % n:
        raise ValueError("array split does not result in an equal division")
    return array_split(a, n)


def unique(x, return_inverse=False):
    u = sorted(set(x))
    if return_inverse:
        at = {v: i for i, v in enumerate(u)}
        return ndarray(u), ndarray(at[v] for v in x)
    return ndarray(u)


def vectorize(f, otypes=None, **k):
    return lambda x, *a: ndarray(f(v, *a) for v in x)
