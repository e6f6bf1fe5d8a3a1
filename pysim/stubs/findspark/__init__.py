def init(*a, **k):
    pass
