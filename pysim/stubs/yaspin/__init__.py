"""A spinner that shows nothing."""


class _Spinner(object):
    text = ""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def write(self, *a):
        pass

    ok = fail = start = stop = write


def yaspin(*a, **k):
    return _Spinner()
