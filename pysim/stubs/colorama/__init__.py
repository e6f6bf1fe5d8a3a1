class _Codes(object):
    def __getattr__(self, n):
        return "\x1b[%dm" % (30 + len(n) % 8)


Fore, Back, Style = _Codes(), _Codes(), _Codes()


def init(*a, **k):
    pass


def deinit():
    pass
