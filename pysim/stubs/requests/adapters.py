class HTTPAdapter(object):
    def __init__(self, *a, **k):
        pass
