class RequestException(IOError):
    def __init__(self, *a, **k):
        self.response = k.pop("response", None)
        self.request = k.pop("request", None)
        super().__init__(*a)


class HTTPError(RequestException):
    pass


class ConnectionError(RequestException):
    pass


class SSLError(ConnectionError):
    pass


class ProxyError(ConnectionError):
    pass


class Timeout(RequestException):
    pass


class ConnectTimeout(ConnectionError, Timeout):
    pass


class ReadTimeout(Timeout):
    pass


class URLRequired(RequestException):
    pass


class TooManyRedirects(RequestException):
    pass


class MissingSchema(RequestException, ValueError):
    pass


class InvalidSchema(RequestException, ValueError):
    pass


class InvalidURL(RequestException, ValueError):
    pass


class InvalidHeader(RequestException, ValueError):
    pass


class ChunkedEncodingError(RequestException):
    pass


class ContentDecodingError(RequestException):
    pass


class StreamConsumedError(RequestException, TypeError):
    pass


class RetryError(RequestException):
    pass
