class _Any(object):
    def __getattr__(self, n):
        return n


Spinners = _Any()
