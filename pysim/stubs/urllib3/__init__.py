from . import exceptions


def disable_warnings(*a, **k):
    pass


class Timeout(object):
    DEFAULT_TIMEOUT = object()

    def __init__(self, *a, **k):
        pass


class Retry(object):
    def __init__(self, *a, **k):
        pass


class PoolManager(object):
    def __init__(self, *a, **k):
        pass
