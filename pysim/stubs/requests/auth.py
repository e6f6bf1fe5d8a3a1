import base64


class AuthBase(object):
    pass


class HTTPBasicAuth(AuthBase):
    def __init__(self, username, password):
        self.username, self.password = username, password

    def __call__(self, r):
        u, p = (x if isinstance(x, bytes) else str(x).encode("latin1") for x in (self.username, self.password))
        r.headers["Authorization"] = "Basic " + base64.b64encode(u + b":" + p).strip().decode()
        return r
