class HTTPWarning(Warning):
    pass


class InsecureRequestWarning(HTTPWarning):
    pass


class HTTPError(Exception):
    pass


class MaxRetryError(HTTPError):
    pass


class ProtocolError(HTTPError):
    pass


class ReadTimeoutError(HTTPError):
    pass
