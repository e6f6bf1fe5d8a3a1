"""Progress bars show nothing."""


def tqdm(iterable=None, *a, **k):
    return Bar() if iterable is None else iterable


def trange(*a, **k):
    return range(*a)


class Bar(object):
    def update(self, n=1):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass
